//! Expression rewriting: from the source of /repo to the dialect Verus accepts.
//! Every rule is directed by the type table (what rustc resolved), and is listed in DESIGN.md.
use crate::thir::{Info, Key, Table};
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Helper { pub inputs: Vec<(Pat, Type)>, pub has_self: bool, pub block: Block, pub file: String, pub generics_fn: Vec<String> }
pub struct Ctx<'a> {
    pub table: &'a Table,
    pub file: String,
    pub strs: BTreeSet<String>,
    pub nloops: usize,
    pub nclosures: usize,
    pub loops: HashMap<usize, TokenStream>,
    pub loop_hints: HashMap<(usize, String), TokenStream>,
    pub closures: HashMap<usize, (TokenStream, TokenStream)>,
    pub call_hints: HashMap<String, Vec<TokenStream>>,
    pub ghost_args: HashMap<String, Vec<TokenStream>>,
    /// functions without contract: inlined at their call sites
    pub helpers: &'a HashMap<String, Helper>,
    /// higher-order functions, always inlined
    pub errors: Vec<String>,
    pub lifted: Vec<(String, TokenStream)>,
    pub fname: String,
    pub lift_contracts: HashMap<usize, TokenStream>,
    pub depth: usize,
    pub skeleton: Vec<String>,
    pub self_ty: String,
    pub statics: &'a BTreeSet<String>,
    pub str_consts: &'a HashMap<String, String>,
    pub tmp: usize,
    pub locals: HashMap<String, String>,
}

pub fn short(def: &str) -> String {
    // core::str::{impl#0}::starts_with -> core::str::starts_with
    def.split("::").filter(|s| !s.starts_with('{')).collect::<Vec<_>>().join("::")
}
pub fn refs(ty: &str) -> (usize, String) {
    let mut t = ty.trim();
    let mut n = 0;
    loop {
        if let Some(r) = t.strip_prefix("&'{erased} mut ") { t = r; n += 1; }
        else if let Some(r) = t.strip_prefix("&'{erased} ") { t = r; n += 1; }
        else if let Some(r) = t.strip_prefix("&'static ") { t = r; n += 1; }
        else if let Some(r) = t.strip_prefix('&') {
            // any other lifetime
            let r = if r.starts_with('\'') { match r.find(' ') { Some(i) => &r[i + 1..], None => r } } else { r };
            let r = r.strip_prefix("mut ").unwrap_or(r);
            t = r; n += 1;
        } else { break; }
    }
    (n, t.to_string())
}
pub fn is_strish(b: &str) -> bool { b == "str" || b == "std::string::String" || b == "smol_str::SmolStr" }
pub fn is_path(b: &str) -> bool { b == "std::path::Path" || b == "std::path::PathBuf" }

fn has_ret(e: &dyn ToTokens, q: bool) -> bool {
    struct F { f: bool, q: bool }
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.f = true; }
        fn visit_expr_try(&mut self, e: &'a ExprTry) { if self.q { self.f = true; } syn::visit::visit_expr_try(self, e); }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut f = F { f: false, q };
    let ts = e.to_token_stream();
    if let Ok(e) = syn::parse2::<Expr>(ts.clone()) { syn::visit::Visit::visit_expr(&mut f, &e); }
    else if let Ok(b) = syn::parse2::<Block>(ts.clone()) { syn::visit::Visit::visit_block(&mut f, &b); }
    else if let Ok(b) = syn::parse2::<Block>(quote!({ #ts })) { syn::visit::Visit::visit_block(&mut f, &b); }
    else { f.f = ts.to_string().contains("return"); }
    f.f
}
fn cfg_dropped(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s == "#[cfg(debug_assertions)]" || s == "#[cfg(test)]" || s == "#[test]" || s == "#[cfg(target_os=\"windows\")]" || s == "#[cfg(windows)]"
    })
}
pub fn dropped(attrs: &[Attribute]) -> bool { cfg_dropped(attrs) }

/// `{ let pat = arg; body }` with a body free of `return` and `?`, or None
pub fn elim_block(stmts: Vec<Stmt>, wrap_q: bool) -> Option<TokenStream> {
    // returns the value of the block as an expression, `return x` becoming the value x
    let mut it = stmts.into_iter();
    let mut done: Vec<TokenStream> = vec![];
    while let Some(st) = it.next() {
        let rest: Vec<Stmt> = it.clone().collect();
        if !has_ret(&st, true) { done.push(st.to_token_stream()); continue; }
        match st {
            Stmt::Local(l) => {
                let init = l.init.clone()?;
                let pat = &l.pat;
                if let Some((_, div)) = &init.diverge {
                    let d = elim_expr((**div).clone(), wrap_q)?;
                    let r = elim_block(rest, wrap_q)?;
                    let e = &init.expr;
                    if has_ret(e, true) { return None; }
                    return Some(quote!({ #(#done)* match #e { #pat => { #r } _ => { #d } } }));
                }
                match *init.expr {
                    Expr::Match(m) if !has_ret(&m.expr, true) => {
                        let mut arms = vec![];
                        let scr = &m.expr;
                        let r = elim_block(rest, wrap_q)?;
                        let mut used = false;
                        for a in &m.arms {
                            let p = &a.pat;
                            let g = a.guard.as_ref().map(|(_, g)| quote!(if #g));
                            if has_ret(&a.body, true) || diverges(&a.body) {
                                let b = elim_expr((*a.body).clone(), wrap_q)?;
                                arms.push(quote!(#p #g => { #b }));
                            } else {
                                if used { return None; }
                                used = true;
                                let b = &a.body;
                                arms.push(quote!(#p #g => { let #pat = #b; #r }));
                            }
                        }
                        return Some(quote!({ #(#done)* match #scr { #(#arms)* } }));
                    }
                    Expr::Try(t) if !has_ret(&t.expr, true) => {
                        let e = &t.expr;
                        let r = elim_block(rest, wrap_q)?;
                        return Some(quote!({ #(#done)* match #e { Ok(vx_t) => { let #pat = vx_t; #r } Err(vx_e) => Err(vx_e) } }));
                    }
                    e => {
                        // hoist the leftmost `?`
                        let (inner, hole) = hoist(e)?;
                        let mut stmts2: Vec<Stmt> = vec![];
                        let l2: Stmt = parse2(quote!(let #pat = #hole;)).ok()?;
                        stmts2.push(l2);
                        stmts2.extend(rest);
                        let r = elim_block(stmts2, wrap_q)?;
                        return Some(quote!({ #(#done)* match #inner { Ok(vx_h) => { #r } Err(vx_e) => Err(vx_e) } }));
                    }
                }
            }
            Stmt::Expr(e, semi) => {
                if rest.is_empty() {
                    let b = elim_expr(e, wrap_q)?;
                    return Some(quote!({ #(#done)* #b }));
                }
                match e {
                    Expr::Return(r) => {
                        let v = r.expr.map(|e| e.to_token_stream()).unwrap_or(quote!(()));
                        return Some(quote!({ #(#done)* #v }));
                    }
                    Expr::If(i) if !has_ret(&i.cond, true) => {
                        // every returning branch must return on all its paths
                        let c = &i.cond;
                        let then_ret = has_ret(&i.then_branch, true);
                        let els = i.else_branch.clone();
                        let r = elim_block(rest.clone(), wrap_q)?;
                        let t = if then_ret {
                            if always_returns(&i.then_branch.stmts) { elim_block(i.then_branch.stmts.clone(), wrap_q)? }
                            else { let mut s = semi_all(i.then_branch.stmts.clone()); s.extend(rest.clone()); elim_block(s, wrap_q)? }
                        } else { let b = &i.then_branch; quote!({ #b; #r }) };
                        let f = match els {
                            None => r,
                            Some((_, e)) => match *e {
                                Expr::Block(b) => {
                                    if always_returns(&b.block.stmts) { elim_block(b.block.stmts, wrap_q)? }
                                    else { let mut s = semi_all(b.block.stmts); s.extend(rest.clone()); elim_block(s, wrap_q)? }
                                }
                                e2 => { let mut s = vec![Stmt::Expr(e2, Some(Default::default()))]; s.extend(rest.clone()); elim_block(s, wrap_q)? }
                            },
                        };
                        let _ = semi;
                        return Some(quote!({ #(#done)* if #c { #t } else { #f } }));
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    Some(quote!({ #(#done)* }))
}
fn semi_all(mut s: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(_, semi)) = s.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
    s
}
fn diverges(e: &Expr) -> bool {
    let s = e.to_token_stream().to_string();
    s.starts_with("vx_unreachable") || s.starts_with("vx_panic")
}
fn always_returns(stmts: &[Stmt]) -> bool {
    match stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => always_returns(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |(_, e)| match &**e { Expr::Block(b) => always_returns(&b.block.stmts), _ => false }),
        _ => false,
    }
}
/// replaces the leftmost-evaluated `?` of `e` by a variable; returns (the expression under `?`, e with the hole)
fn hoist(e: Expr) -> Option<(Expr, Expr)> {
    fn go(e: &mut Expr, out: &mut Option<Expr>) {
        match e {
            Expr::Try(t) => {
                if has_ret(&t.expr, true) { go(&mut t.expr, out); if out.is_some() { return; } }
                *out = Some((*t.expr).clone());
                *e = parse_quote!(vx_h);
            }
            Expr::MethodCall(m) => { if has_ret(&m.receiver, true) { go(&mut m.receiver, out) } else if m.args.len() == 1 && has_ret(&m.args[0], true) { go(&mut m.args[0], out) } }
            Expr::Match(m) => go(&mut m.expr, out),
            Expr::Call(c) => { if c.args.len() == 1 { go(&mut c.args[0], out) } }
            Expr::Field(f) => go(&mut f.base, out),
            Expr::Paren(p) => go(&mut p.expr, out),
            Expr::Reference(r) => go(&mut r.expr, out),
            _ => {}
        }
    }
    let mut e = e;
    let mut out = None;
    go(&mut e, &mut out);
    out.map(|o| (o, e))
}
pub fn elim_expr(e: Expr, wrap_q: bool) -> Option<TokenStream> {
    if !has_ret(&e, true) { return Some(e.to_token_stream()); }
    match e {
        Expr::Return(r) => Some(r.expr.map(|e| e.to_token_stream()).unwrap_or(quote!(()))),
        Expr::Block(b) => elim_block(b.block.stmts, wrap_q),
        Expr::Match(m) => {
            if has_ret(&m.expr, true) {
                let (inner, hole) = hoist(Expr::Match(m))?;
                let r = elim_expr(hole, wrap_q)?;
                return Some(quote!(match #inner { Ok(vx_h) => { #r } Err(vx_e) => Err(vx_e) }));
            }
            let scr = &m.expr;
            let mut arms = vec![];
            for a in &m.arms {
                let p = &a.pat;
                let g = a.guard.as_ref().map(|(_, g)| quote!(if #g));
                let b = elim_expr((*a.body).clone(), wrap_q)?;
                arms.push(quote!(#p #g => { #b }));
            }
            Some(quote!(match #scr { #(#arms)* }))
        }
        Expr::If(i) => {
            if has_ret(&i.cond, true) { return None; }
            let c = &i.cond;
            let t = elim_block(i.then_branch.stmts.clone(), wrap_q)?;
            let f = match i.else_branch { None => return None, Some((_, e)) => elim_expr(*e, wrap_q)? };
            Some(quote!(if #c { #t } else { #f }))
        }
        Expr::Paren(p) => elim_expr(*p.expr, wrap_q),
        Expr::Try(t) => {
            // value of `e?` in tail position: Ok(v) => v
            let e = elim_expr(*t.expr, wrap_q)?;
            Some(quote!(match #e { Ok(vx_t) => vx_t, Err(vx_e) => Err(vx_e) }))
        }
        other => {
            let (inner, hole) = hoist(other)?;
            let r = elim_expr(hole, wrap_q)?;
            Some(quote!(match #inner { Ok(vx_h) => { #r } Err(vx_e) => Err(vx_e) }))
        }
    }
}

impl<'a> Ctx<'a> {
    pub fn key(&self, s: Span) -> Key {
        (self.file.clone(), s.start().line, s.start().column + 1, s.end().line, s.end().column + 1)
    }
    pub fn info(&self, s: Span) -> Option<&Info> { self.table.get(&self.key(s)) }
    pub fn ty(&self, s: Span) -> String { self.info(s).map(|i| i.ty.clone()).unwrap_or_default() }
    pub fn err(&mut self, s: String) { self.errors.push(s); }

    /// expression of type &str
    fn as_str(&self, e: &Expr, ty: &str) -> TokenStream {
        if let Expr::Lit(_) = e { return quote!(#e); }
        let (n, b) = refs(ty);
        if b == "str" {
            match n { 0 => quote!((#e)), 1 => quote!(#e), _ => { let stars = vec![quote!(*); n - 1]; quote!((#(#stars)* #e)) } }
        } else if is_path(&b) { quote!((#e).as_pathstr()) }
        else { quote!((#e).as_str()) }
    }
    /// expression of type &T from one of type &^n T
    fn as_ref1(&self, e: &Expr, ty: &str) -> TokenStream {
        let (n, _) = refs(ty);
        match n { 0 => quote!(&#e), 1 => quote!(#e), _ => { let stars = vec![quote!(*); n - 1]; quote!((#(#stars)* #e)) } }
    }
    fn tmp(&mut self, p: &str) -> Ident { self.tmp += 1; quote::format_ident!("vx_{}{}", p, self.tmp) }

    fn lit(&mut self, s: &str) { self.strs.insert(s.to_string()); }

    fn format(&mut self, ts: TokenStream) -> TokenStream {
        // the format string, then the arguments
        struct A { fmt: LitStr, args: Vec<Expr> }
        impl syn::parse::Parse for A {
            fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                let fmt = i.parse()?;
                let mut args = vec![];
                while i.peek(Token![,]) { let _: Token![,] = i.parse()?; if i.is_empty() { break; } args.push(i.parse()?); }
                Ok(A { fmt, args })
            }
        }
        let a: A = match parse2(ts.clone()) { Ok(a) => a, Err(_) => { self.err(format!("format arguments: {ts}")); return quote!(string_new()); } };
        let f = a.fmt.value();
        let mut parts: Vec<TokenStream> = vec![];
        let mut lit = String::new();
        let mut n = 0;
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => { lit.push('{'); i += 2; }
                '}' if cs.get(i + 1) == Some(&'}') => { lit.push('}'); i += 2; }
                '{' => {
                    let mut j = i + 1;
                    while j < cs.len() && cs[j] != '}' { j += 1; }
                    let name: String = cs[i + 1..j].iter().collect();
                    if !lit.is_empty() { self.lit(&lit); parts.push(quote!(s_to_string(#lit))); lit.clear(); }
                    if name.is_empty() {
                        if n < a.args.len() {
                            let mut e = a.args[n].clone();
                            let mut ty = self.ty(e.span());
                            if let Expr::Reference(r) = &e { if let Expr::Index(ix) = &*r.expr { if let Expr::Range(_) = &*ix.index { if is_strish(&refs(&ty).1) { ty = "&str".into(); } } } }
                            self.visit_expr_mut(&mut e);
                            let (_, b) = refs(&ty);
                            if is_strish(&b) { let s = self.as_str(&e, &ty); parts.push(quote!(s_to_string(#s))); }
                            else { parts.push(quote!((#e).to_disp())); }
                        } else { self.err("format arity".into()); }
                        n += 1;
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.chars().next().unwrap().is_numeric() {
                        let id = quote::format_ident!("{}", name);
                        parts.push(quote!((#id).to_disp()));
                    } else { self.err(format!("format specification {{{name}}}")); }
                    i = j + 1;
                }
                c => { lit.push(c); i += 1; }
            }
        }
        if !lit.is_empty() { self.lit(&lit); parts.push(quote!(s_to_string(#lit))); }
        let mut it = parts.into_iter();
        let mut acc = it.next().unwrap_or_else(|| quote!(string_new()));
        for p in it { acc = quote!(s_cat(#acc, #p)); }
        acc
    }

    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let ts = m.tokens.clone();
        Some(match name.as_str() {
            "format" => { let t = self.format(ts); parse2(t).ok()? }
            "panic" | "unreachable" | "todo" | "unimplemented" => parse_quote!(vx_unreachable()),
            "vec" => {
                if ts.is_empty() { return Some(parse_quote!(vx_vec_new())); }
                if let Ok(r) = parse2::<ExprRepeat>(quote!([#ts])) {
                    let (mut e, mut n) = (*r.expr, *r.len);
                    self.visit_expr_mut(&mut e); self.visit_expr_mut(&mut n);
                    return Some(parse_quote!(vx_vec_repeat(#e, #n)));
                }
                let mut a: ExprArray = parse2(quote!([#ts])).ok()?;
                let v = self.tmp("v");
                let mut st = vec![];
                for e in a.elems.iter_mut() { self.visit_expr_mut(e); st.push(quote!(#v.push(#e);)); }
                parse_quote!({ let mut #v = vx_vec_new(); #(#st)* #v })
            }
            "matches" => {
                struct M { e: Expr, p: Pat, g: Option<Expr> }
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?; let _: Token![,] = i.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) { let _: Token![if] = i.parse()?; Some(i.parse()?) } else { None };
                        let _: Option<Token![,]> = i.parse()?;
                        Ok(M { e, p, g })
                    }
                }
                let mut x: M = parse2(ts).ok()?;
                self.visit_expr_mut(&mut x.e);
                let mut sg = vec![];
                self.strlit_pat(&mut x.p, &mut sg);
                self.visit_pat_mut(&mut x.p);
                if let Some(mut g) = x.g { self.visit_expr_mut(&mut g); sg.push(quote!((#g))); }
                let (e, p) = (&x.e, &x.p);
                if sg.is_empty() { parse_quote!((match &(#e) { #p => true, _ => false })) }
                else { parse_quote!((match &(#e) { #p if #(#sg)&&* => true, _ => false })) }
            }
            "vx_inv" | "vx_hint" => return Some(Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() })),
            "println" | "eprintln" | "debug_span" | "trace_span" | "info_span" | "span" | "dbg" | "debug_assert" | "debug_assert_eq" | "trace" | "debug" | "info" | "warn" => parse_quote!(()),
            "assert" => { let mut e: ExprArray = parse2(quote!([#ts])).ok()?; self.visit_expr_mut(&mut e.elems[0]); let c = &e.elems[0]; parse_quote!(if !(#c) { vx_unreachable() }) }
            "write" => { // write!(f, "..", ..) in a Display impl: the text written
                let mut it = ts.into_iter();
                let _ = it.next(); let _ = it.next();
                let rest: TokenStream = it.collect();
                let t = self.format(rest); parse2(t).ok()?
            }
            _ => return None,
        })
    }

    /// pattern `&p`: rely on default binding modes; returns the identifiers to be dereferenced
    fn unref_pat(&mut self, p: &mut Pat, under: bool, out: &mut Vec<Ident>) {
        match p {
            Pat::Reference(r) => {
                let is_mut = r.mutability.is_some();
                let mut inner = (*r.pat).clone();
                self.unref_pat(&mut inner, !is_mut || under, out);
                if let Pat::Ident(i) = &inner { if is_mut { let _ = i; self.err("&mut ident pattern".into()); } }
                *p = inner;
            }
            Pat::Ident(i) => {
                if i.by_ref.is_some() { i.by_ref = None; i.mutability = None; }
                else if under && i.subpat.is_none() && i.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { out.push(i.ident.clone()); }
            }
            Pat::Tuple(t) => for e in t.elems.iter_mut() { self.unref_pat(e, under, out); },
            Pat::TupleStruct(t) => for e in t.elems.iter_mut() { self.unref_pat(e, under, out); },
            Pat::Struct(t) => for e in t.fields.iter_mut() { self.unref_pat(&mut e.pat, under, out); },
            Pat::Paren(t) => { let mut i = (*t.pat).clone(); self.unref_pat(&mut i, under, out); *p = i; }
            Pat::Or(t) => for e in t.cases.iter_mut() { self.unref_pat(e, under, out); },
            _ => {}
        }
    }
    /// string literals in a pattern: a variable and a test (the verifier compares str values, not their text)
    fn strlit_pat(&mut self, p: &mut Pat, g: &mut Vec<TokenStream>) {
        fn lits(p: &Pat) -> Option<Vec<LitStr>> {
            match p {
                Pat::Lit(l) => if let Lit::Str(s) = &l.lit { Some(vec![s.clone()]) } else { None },
                Pat::Or(o) => { let mut v = vec![]; for c in o.cases.iter() { v.extend(lits(c)?); } Some(v) }
                Pat::Paren(q) => lits(&q.pat),
                _ => None,
            }
        }
        if let Some(ls) = lits(p) {
            let id = self.tmp("m");
            for l in &ls { let v = l.value(); self.lit(&v); }
            g.push(quote!((#(s_eq(#id, #ls))||*)));
            *p = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id, subpat: None });
            return;
        }
        match p {
            Pat::Reference(r) => self.strlit_pat(&mut r.pat, g),
            Pat::Paren(r) => self.strlit_pat(&mut r.pat, g),
            Pat::Tuple(t) => for e in t.elems.iter_mut() { self.strlit_pat(e, g); },
            Pat::TupleStruct(t) => for e in t.elems.iter_mut() { self.strlit_pat(e, g); },
            Pat::Struct(t) => for e in t.fields.iter_mut() { self.strlit_pat(&mut e.pat, g); },
            Pat::Slice(t) => for e in t.elems.iter_mut() { self.strlit_pat(e, g); },
            Pat::Ident(i) => if let Some((_, q)) = &mut i.subpat { self.strlit_pat(q, g); },
            Pat::Or(o) => {
                let n = g.len();
                for c in o.cases.iter_mut() { self.strlit_pat(c, g); }
                if g.len() > n { self.err("string literal under an or-pattern".into()); }
            }
            _ => {}
        }
    }
    fn no_strlit(&mut self, p: &Pat) {
        let mut g = vec![];
        let mut q = p.clone();
        self.strlit_pat(&mut q, &mut g);
        if !g.is_empty() { self.err("string literal in this pattern".into()); }
    }
    fn fix_pat(&mut self, p: &mut Pat) -> TokenStream {
        let s = p.to_token_stream().to_string();
        let mut out = vec![];
        if s.contains('&') || s.contains("ref ") { self.unref_pat(p, false, &mut out); }
        self.visit_pat_mut(p);
        quote!(#(let #out = *#out;)*)
    }

    fn inline_closure(&mut self, f: &Expr, args: Vec<TokenStream>) -> Option<TokenStream> {
        match f {
            Expr::Closure(c) => {
                let mut lets = vec![];
                for (p, a) in c.inputs.iter().zip(args.iter()) {
                    let mut p = p.clone();
                    if let Pat::Type(t) = &p { p = (*t.pat).clone(); }
                    if let Pat::Reference(_) = &p {
                        let mut ids = vec![];
                        self.unref_pat(&mut p, false, &mut ids);
                        lets.push(quote!(let #p = #a; #(let #ids = *#ids;)*));
                    } else if let Pat::Wild(_) = &p { lets.push(quote!(let _vx_w = #a;)); }
                    else { self.visit_pat_mut(&mut p); lets.push(quote!(let #p = #a;)); }
                }
                let mut body = (*c.body).clone();
                if has_ret(&body, true) {
                    // elimination first on the source, so that spans still match
                    let idx = self.nclosures;
                    if let Some(t) = elim_expr(body.clone(), false) {
                        if let Ok(b) = parse2::<Expr>(t) { body = b; } else { self.err("elim".into()); return None; }
                    } else {
                        return self.lift(c, args, idx);
                    }
                }
                self.visit_expr_mut(&mut body);
                Some(quote!({ #(#lets)* #body }))
            }
            Expr::Path(p) => {
                let mut e: Expr = parse2(quote!(#p(#(#args),*))).ok()?;
                // no span: resolve by name
                let s = p.to_token_stream().to_string().replace(' ', "");
                let a = args.first().cloned().unwrap_or_default();
                match s.as_str() {
                    "String::from" | "ToString::to_string" | "str::to_string" => e = parse2(quote!(s_to_string(#a))).ok()?,
                    "Into::into" => { self.err("Into::into by name".into()); }
                    _ => { if let Expr::Call(c) = &mut e { if let Expr::Path(p) = &mut *c.func { self.fix_path(&mut p.path); } } }
                }
                Some(quote!(#e))
            }
            _ => None,
        }
    }
    /// lambda lifting: the closure becomes a function of its captured variables with a contract of its own
    fn lift(&mut self, c: &ExprClosure, args: Vec<TokenStream>, idx: usize) -> Option<TokenStream> {
        let name = quote::format_ident!("{}_closure{}", self.fname.replace("::", "_"), idx);
        let contract = match self.lift_contracts.get(&idx) { Some(c) => c.clone(), None => { self.err("lifted closure without contract".into()); return None; } };
        // captured locals
        let mut body = (*c.body).clone();
        struct Ids { v: Vec<(String, Span)> }
        impl<'b> syn::visit::Visit<'b> for Ids {
            fn visit_expr_path(&mut self, p: &'b ExprPath) { if let Some(i) = p.path.get_ident() { self.v.push((i.to_string(), p.span())); } }
            fn visit_macro(&mut self, m: &'b Macro) {
                for t in m.tokens.clone() { if let TokenTree::Ident(i) = t { self.v.push((i.to_string(), i.span())); } }
            }
        }
        let mut ids = Ids { v: vec![] };
        syn::visit::Visit::visit_expr(&mut ids, &body);
        let mut caps: Vec<(String, String)> = vec![];
        for (n, _) in ids.v {
            if let Some(t) = self.locals.get(&n) { if !caps.iter().any(|x| x.0 == n) { caps.push((n.clone(), t.clone())); } }
        }
        self.visit_expr_mut(&mut body);
        let mut ps = vec![];
        let mut cargs = vec![];
        for (n, t) in &caps {
            let id = quote::format_ident!("{}", n);
            let ty: TokenStream = t.parse().ok()?;
            if n == "self" { continue; }
            let (r, _) = refs(t);
            if r > 0 || t.starts_with('&') { ps.push(quote!(#id: #ty)); cargs.push(quote!(#id)); }
            else { ps.push(quote!(#id: &#ty)); cargs.push(quote!(&#id)); }
        }
        let mut pn = vec![];
        for (p, _) in c.inputs.iter().zip(args.iter()) { pn.push(p.to_token_stream()); }
        // parameter types and return type come with the contract:  PARAM_TYPES ; RET ; CLAUSES
        let mut parts: Vec<TokenStream> = vec![TokenStream::new()];
        for t in contract {
            if let TokenTree::Punct(p) = &t { if p.as_char() == ';' && parts.len() < 3 { parts.push(TokenStream::new()); continue; } }
            parts.last_mut().unwrap().extend(std::iter::once(t));
        }
        let (pt, ret, clauses) = (parts[0].clone(), parts[1].clone(), parts.get(2).cloned().unwrap_or_default());
        let p0 = &pn[0];
        let rv: Vec<TokenStream> = self.strs.iter().map(|s| { let cs: Vec<char> = s.chars().collect(); quote!(reveal_strlit(#s); assert(ext_same(#s @, seq![#(#cs),*]));) }).collect();
        self.lifted.push((name.to_string(), quote!(#[verifier::loop_isolation(false)] fn #name(#p0: #pt, #(#ps),*) -> (#ret) #clauses { proof { reveal_tag(); #(#rv)* } #body })));
        Some(quote!(#name(#(#args,)* #(#cargs),*)))
    }

    pub fn fix_path(&mut self, p: &mut syn::Path) {
        let n = p.segments.len();
        for s in p.segments.iter_mut() {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                for x in a.args.iter_mut() { if let GenericArgument::Type(t) = x { self.visit_type_mut(t); } }
            }
        }
        if n == 1 { return; }
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let up = |s: &str| s.chars().next().map_or(false, |c| c.is_uppercase()) && !s.chars().all(|c| c.is_uppercase() || c == '_');
        let keep = if n >= 2 && up(&segs[n - 2]) { 2 } else { 1 };
        if p.leading_colon.is_some() { p.leading_colon = None; }
        let tail: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
        p.segments = tail.into_iter().collect();
        if keep == 2 {
            let first = p.segments[0].ident.to_string();
            let second = p.segments[1].ident.to_string();
            if (first == "ExportsField" || first == "ImportsField" || first == "Self") && ["Direct", "Conditional", "Array"].contains(&second.as_str()) {
                p.segments[0].ident = quote::format_ident!("MappingValue");
            } else if first == "ExportsField" || first == "ImportsField" {
                p.segments[0].ident = quote::format_ident!("{}F", first);
            } else if first == "Self" && self.self_ty == "enum" { }
        }
    }

    fn desugar_for(&mut self, f: ExprForLoop) -> Expr {
        let k = self.nloops;
        self.nloops += 1;
        self.skeleton.push("for".into());
        let mut head = (*f.expr).clone();
        let hty = self.ty(head.span());
        let conv = self.into_viter_kind(&head, &hty);
        self.visit_expr_mut(&mut head);
        let mut pat = (*f.pat).clone();
        let derefs = self.fix_pat(&mut pat);
        let mut body = f.body.clone();
        let hint_s = self.loop_hints.get(&(k, "start".into())).cloned();
        let hint_e = self.loop_hints.get(&(k, "end".into())).cloned();
        let hint_a = self.loop_hints.get(&(k, "after".into())).cloned();
        let hint_b = self.loop_hints.get(&(k, "before".into())).cloned();
        self.visit_block_mut(&mut body);
        let inv = self.loops.get(&k).cloned().unwrap_or_default();
        let it = quote::format_ident!("it{}", k);
        let i = quote::format_ident!("i{}", k);
        let stmts = &body.stmts;
        let label = f.label.map(|l| quote!(#l));
        let headc = conv(quote!(#head));
        let invs = with_auto_inv(inv, quote!(#i <= #it@.len()), quote!(#it@.len() - #i));
        let semi_body = quote!(#(#stmts)*);
        let letpat = if let Pat::Wild(_) = pat { quote!() } else { quote!(let #pat = #it.at(#i);) };
        let w = vexpr(quote!({
            let #it = #headc;
            let mut #i: usize = 0;
            #hint_b
            #label while #i < #it.len()
            { vx_inv!{ #invs } vx_hint!{ proof { assert(vx_idx(#i as int)); } } #letpat #derefs #i = #i + 1; #hint_s #semi_body ; #hint_e }
            vx_hint!{ proof { assert(vx_idx(#i as int)); } }
            #hint_a
        }));
        w
    }
    fn into_viter_kind(&mut self, _head: &Expr, hty: &str) -> Box<dyn Fn(TokenStream) -> TokenStream> {
        let (n, b) = refs(hty);
        if b.starts_with("std::vec::Vec<") || b.starts_with("std::vec::Vec ") {
            if n == 0 { Box::new(|h| quote!(vec_into_viter(#h))) } else { Box::new(|h| quote!(vec_iter(#h))) }
        } else if b.starts_with('[') { Box::new(|h| quote!(slice_iter(#h))) }
        else if b.starts_with("indexmap::") || b.starts_with("serde_json::Map") || b.starts_with("std::collections::HashMap") {
            if b.contains("Iter<") || b.contains("Keys<") { Box::new(|h| quote!(#h)) }
            else if n == 0 { Box::new(|h| quote!((#h).into_viter())) } else { Box::new(|h| quote!((#h).iter())) }
        } else if b.starts_with("std::ops::Range<") { Box::new(|h| quote!(range_viter(#h))) }
        else { Box::new(|h| quote!(#h)) }
    }

    fn call(&mut self, e: &mut ExprCall, info: Option<Info>, argtys: Vec<String>) -> Option<Expr> {
        let callee = info.as_ref().and_then(|i| i.callee.clone()).map(|c| short(&c)).unwrap_or_default();
        let ty = info.as_ref().map(|i| i.ty.clone()).unwrap_or_default();
        let args: Vec<Expr> = e.args.iter().cloned().collect();
        let a0ty = argtys.first().cloned().unwrap_or_default();
        match callee.as_str() {
            "core::convert::From::from" => {
                let (_, b) = refs(&ty);
                let (_, ab) = refs(&a0ty);
                if is_path(&b) { let s = self.as_str(&args[0], &a0ty); return Some(parse_quote!(path_from(#s))); }
                if is_strish(&b) && (is_strish(&ab)) { let s = self.as_str(&args[0], &a0ty); return Some(parse_quote!(s_to_string(#s))); }
                self.err(format!("From::from {a0ty} -> {ty}"));
                None
            }
            "core::default::Default::default" => {
                let (_, b) = refs(&ty);
                if b.starts_with("std::vec::Vec") { return Some(parse_quote!(vx_vec_new())); }
                None
            }
            "alloc::string::new" => Some(parse_quote!(string_new())),
            "smol_str::new" => { let s = self.as_str(&args[0], &a0ty); Some(parse_quote!(s_to_string(#s))) }
            "alloc::vec::new" => Some(parse_quote!(vx_vec_new())),
            "std::fs::read_to_string" => { let a = self.as_ref1(&args[0], &a0ty); Some(parse_quote!(fs_read_to_string(#a))) }
            "std::fs::metadata" => { let a = self.as_ref1(&args[0], &a0ty); Some(parse_quote!(fs_metadata(#a))) }
            "serde_json::ser::to_string" => { let a = self.as_ref1(&args[0], &a0ty); Some(parse_quote!(value_to_string(#a))) }
            "serde_json::de::from_str" => { let (_, b) = refs(&a0ty); let a = &args[0]; if b.starts_with("std::sync::Arc") { Some(parse_quote!(value_from_str(vx_arc_str(#a)))) } else { let s = self.as_str(&args[0], &a0ty); Some(parse_quote!(value_from_str(#s))) } }
            "jsonc_parser::serde::parse_to_serde_value" | "jsonc_parser::parse_to_serde_value" | "jsonc_parser::parse_to_value::parse_to_serde_value" => { let s = self.as_str(&args[0], &a0ty); Some(parse_quote!(jsonc_parse(#s))) }
            "std::path::canonicalize" => { let a = self.as_ref1(&args[0], &a0ty); Some(parse_quote!(path_canonicalize(#a))) }
            _ => None,
        }
    }

    fn method(&mut self, e: &ExprMethodCall, orig: &ExprMethodCall, info: Option<Info>, rty: String, argtys: Vec<String>) -> Option<Expr> {
        let m = e.method.to_string();
        let callee = info.as_ref().and_then(|i| i.callee.clone()).map(|c| short(&c)).unwrap_or_default();
        let ty = info.as_ref().map(|i| i.ty.clone()).unwrap_or_default();
        let cargs = info.as_ref().map(|i| i.callee_args.clone()).unwrap_or_default();
        let recv = (*e.receiver).clone();
        let args: Vec<Expr> = e.args.iter().cloned().collect();
        let oargs: Vec<Expr> = orig.args.iter().cloned().collect();
        let a0 = args.first().cloned();
        let a0ty = argtys.first().cloned().unwrap_or_default();
        let (rn, rb) = refs(&rty);
        let module: String = { let v: Vec<&str> = callee.split("::").collect(); v[..v.len().saturating_sub(1)].join("::") };
        let call1 = |f: &str, a: TokenStream| -> Option<Expr> { let f = quote::format_ident!("{}", f); Some(parse_quote!(#f(#a))) };
        match callee.as_str() {
            "core::clone::Clone::clone" => {
                let selfty = cargs.split("value: [").nth(1).map(|s| s.split("], bound_vars").next().unwrap_or("").to_string()).unwrap_or_default();
                if selfty.starts_with('&') { return Some(parse_quote!(#recv)); }
                let a = if rb.starts_with("dashmap::") { quote!((#recv).vx_ref()) } else if refs(&rty).0 == 1 { quote!(#recv) } else { self.as_ref1(&recv, &rty) };
                return Some(parse_quote!(vx_clone(#a)));
            }
            "alloc::string::ToString::to_string" | "alloc::borrow::ToOwned::to_owned" | "smol_str::to_string" | "alloc::str::to_owned" | "alloc::string::to_string" => {
                if is_strish(&rb) { let s = self.as_str(&recv, &rty); return Some(parse_quote!(s_to_string(#s))); }
                if is_path(&rb) { let a = self.as_ref1(&recv, &rty); return Some(parse_quote!(vx_clone(#a))); }
                return Some(parse_quote!((#recv).to_disp()));
            }
            "std::path::to_path_buf" => { let a = self.as_ref1(&recv, &rty); return Some(parse_quote!(vx_clone(#a))); }
            "core::convert::Into::into" => {
                let (_, b) = refs(&ty);
                if is_strish(&b) && is_strish(&rb) { let s = self.as_str(&recv, &rty); return Some(parse_quote!(s_to_string(#s))); }
                if is_path(&b) && (is_strish(&rb) || is_path(&rb)) { let s = self.as_str(&recv, &rty); return Some(parse_quote!(path_from(#s))); }
                self.err(format!("Into::into {rty} -> {ty}")); return None;
            }
            "core::convert::AsRef::as_ref" => {
                return Some(parse_quote!(#recv));
            }
            "core::cmp::PartialEq::eq" | "core::cmp::PartialEq::ne" => {
                let neg = callee.ends_with("ne");
                let x = self.eq(&recv, &rty, a0.as_ref().unwrap(), &a0ty, true);
                return x.map(|x| if neg { parse_quote!((!#x)) } else { x });
            }
            "core::cmp::Ord::cmp" => {
                if is_strish(&rb) { let (a, b) = (self.as_str(&recv, &rty), self.as_str(a0.as_ref().unwrap(), &a0ty)); return Some(parse_quote!(s_cmp(#a, #b))); }
                if rb == "usize" { let (a, b) = (deref_all(&recv, rn), deref_all(a0.as_ref().unwrap(), refs(&a0ty).0)); return Some(parse_quote!(usize_cmp(#a, #b))); }
                self.err(format!("cmp on {rty}")); return None;
            }
            "tracing::span::in_scope" => {
                if let Expr::Closure(c) = &oargs[0] { let mut b = (*c.body).clone(); if has_ret(&b, true) { self.err("in_scope".into()); } self.visit_expr_mut(&mut b); return Some(b); }
            }
            "nodejs_resolver::and_then" if false => {}
            _ => {}
        }
        // strings
        let is_str_mod = module == "core::str" || module == "alloc::str" || module == "alloc::string" || module == "smol_str";
        if is_str_mod && (is_strish(&rb) || rb.starts_with("std::sync::Arc<std::string::String")) {
            if m == "push" || m == "push_str" || m == "clear" || m == "pop" || m == "truncate" {
                let r = if rn == 0 { quote!(&mut #recv) } else { quote!(#recv) };
                if m == "push" { return Some(parse_quote!(string_push(#r, #a0))); }
                if m == "push_str" { let s = self.as_str(a0.as_ref().unwrap(), &a0ty); return Some(parse_quote!(string_push_str(#r, #s))); }
                self.err(format!("String::{m}")); return None;
            }
            let s = self.as_str(&recv, &rty);
            match m.as_str() {
                "len" | "is_empty" | "chars" | "char_indices" | "as_bytes" | "bytes" | "trim" | "to_lowercase" | "to_uppercase" => return call1(&format!("s_{m}"), s),
                "as_str" => return Some(parse_quote!(#s)),
                "starts_with" | "ends_with" | "contains" | "find" | "rfind" | "strip_prefix" | "strip_suffix" | "split" | "split_once" | "rsplit_once" | "trim_start_matches" | "trim_end_matches" | "matches" => {
                    let (suf, p) = self.pat_arg(a0.as_ref().unwrap(), &oargs[0], &a0ty)?;
                    let f = quote::format_ident!("s_{}_{}", m, suf);
                    return Some(parse_quote!(#f(#s, #p)));
                }
                "replace" => {
                    let (suf, p) = self.pat_arg(a0.as_ref().unwrap(), &oargs[0], &a0ty)?;
                    let to = self.as_str(&args[1], &argtys[1]);
                    let f = quote::format_ident!("s_{}_{}", m, suf);
                    return Some(parse_quote!(#f(#s, #p, #to)));
                }
                "replacen" => {
                    let (suf, p) = self.pat_arg(a0.as_ref().unwrap(), &oargs[0], &a0ty)?;
                    let to = self.as_str(&args[1], &argtys[1]);
                    let f = quote::format_ident!("s_{}_{}", m, suf);
                    let n = &args[2];
                    return Some(parse_quote!(#f(#s, #p, #to, #n)));
                }
                "get" => { self.err("str::get".into()); return None; }
                _ => { self.err(format!("str method {m}")); return None; }
            }
        }
        if module == "core::num" && m == "abs" && rb == "i32" { return Some(parse_quote!(i32_abs(#recv))); }
        if module == "core::option" || module == "core::result" {
            if let Some(x) = self.combinator(&module, &m, &recv, &args, &oargs, &ty, &rty) { return Some(x); }
            return None;
        }
        if is_path(&rb) && module == "std::path" {
            let r = self.as_ref1(&recv, &rty);
            return Some(match m.as_str() {
                "join" | "with_file_name" | "with_extension" | "starts_with" | "ends_with" | "strip_prefix" => { let s = self.as_str(a0.as_ref().unwrap(), &a0ty); let f = quote::format_ident!("path_{}", m); parse_quote!(#f(#r, #s)) }
                "push" => { let s = if refs(&a0ty).1.contains("OsStr") { quote!(#a0) } else { self.as_str(a0.as_ref().unwrap(), &a0ty) }; let r = if rn == 0 { quote!(&mut #recv) } else { quote!(#recv) }; parse_quote!(path_push(#r, #s)) }
                "pop" => { let r = if rn == 0 { quote!(&mut #recv) } else { quote!(#recv) }; parse_quote!(path_pop(#r)) }
                "as_path" | "as_os_str" => parse_quote!(#r),
                _ => { let f = quote::format_ident!("path_{}", m); parse_quote!(#f(#r)) }
            });
        }
        if module.starts_with("phf::") && m == "contains" && recv.to_token_stream().to_string().starts_with("static_") {
            let s = self.as_str(a0.as_ref().unwrap(), &a0ty);
            return Some(parse_quote!(strs_contains(#recv, #s)));
        }
        if module == "core::slice" || module == "alloc::slice" || module == "alloc::vec" {
            match m.as_str() {
                "iter" => {
                    let isvec = rb.starts_with("std::vec::Vec");
                    let r = if rn == 0 && isvec { quote!(&#recv) } else { quote!(#recv) };
                    return Some(if isvec { parse_quote!(vec_iter(#r)) } else { parse_quote!(slice_iter(#r)) });
                }
                "contains" => {
                    if recv.to_token_stream().to_string().starts_with("static_") { let s = self.as_str(a0.as_ref().unwrap(), &a0ty); return Some(parse_quote!(strs_contains(#recv, #s))); }
                    let r = if rn == 0 { quote!(&#recv) } else { quote!(#recv) };
                    if is_strish(&refs(&a0ty).1) { let s = self.as_str(a0.as_ref().unwrap(), &a0ty); return Some(parse_quote!(strs_contains(#r, #s))); }
                    self.err("slice contains".into()); return None;
                }
                "sort_by" => {
                    let r = if rn == 0 { quote!(&mut #recv) } else { quote!(#recv) };
                    let c = self.closure(&oargs[0])?;
                    let g = self.ghost_args.get("sort_by").and_then(|v| v.first().cloned()).unwrap_or_default();
                    return Some(parse_quote!(vec_sort_by(#r, #c, #g)));
                }
                "first" => { let r = if rn == 0 { quote!(&#recv) } else { quote!(#recv) }; return Some(parse_quote!(vec_first(#r))); }
                "last" => { let r = if rn == 0 { quote!(&#recv) } else { quote!(#recv) }; return Some(parse_quote!(vec_last(#r))); }
                "get" => { let r = if rn == 0 { quote!(&#recv) } else { quote!(#recv) }; return Some(parse_quote!(vec_get(#r, #a0))); }
                "is_empty" if rb.starts_with("std::vec::Vec") => return Some(parse_quote!(((#recv).len() == 0))),
                _ => return None,
            }
        }
        if module == "core::iter::traits::iterator::Iterator" || module == "core::iter::traits::double_ended::DoubleEndedIterator" || module == "core::iter::traits::collect::IntoIterator" {
            match m.as_str() {
                "fold" => return self.desugar_fold(&recv, &oargs, &ty),
                "into_iter" => { let conv = self.into_viter_kind(&recv, &rty); let t = conv(quote!(#recv)); return parse2(t).ok(); }
                "map" | "filter" | "any" | "all" | "position" | "find" | "filter_map" | "for_each" => {
                    let r = if rb.starts_with("std::ops::Range<") { quote!(range_viter(#recv)) } else { quote!(#recv) };
                    let g = self.ghost_args.get(&m).and_then(|v| if v.is_empty() { None } else { Some(v[0].clone()) });
                    if let Some(v) = self.ghost_args.get_mut(&m) { if !v.is_empty() { v.remove(0); } }
                    if let Expr::Closure(_) = &oargs[0] {
                        let c = self.closure(&oargs[0])?;
                        let mm = quote::format_ident!("it_{}", m);
                        return Some(match g { Some(g) => parse_quote!(#r.#mm(#c, #g)), None => parse_quote!(#r.#mm(#c)) });
                    }
                    let fs = oargs[0].to_token_stream().to_string().replace(' ', "");
                    if m == "map" && (fs == "String::from" || fs == "ToString::to_string" || fs == "str::to_string") { return Some(parse_quote!(#r.map_to_string())); }
                    self.err(format!("{m}({fs})")); return None;
                }
                "rev" | "skip" | "take" | "enumerate" | "next" | "count" | "last" | "nth" | "zip" | "chain" | "step_by" => {
                    if rb.starts_with("std::ops::Range<") { let mm = &e.method; return Some(parse_quote!(range_viter(#recv).#mm(#(#args),*))); }
                    return None;
                }
                "collect" => return None,
                _ => { self.err(format!("iterator method {m}")); return None; }
            }
        }
        if m == "or_insert_with" {
            // X.entry(k).or_insert_with(F)
            if let Expr::MethodCall(en) = &recv { if en.method == "entry" {
                let (x, k) = (&en.receiver, &en.args[0]);
                let v = self.inline_closure(&oargs[0], vec![]).or_else(|| { let f = &args[0]; Some(quote!(#f())) })?;
                let v: TokenStream = if let Expr::Path(p) = &oargs[0] { let mut p = p.path.clone(); self.fix_path(&mut p); quote!(#p()) } else { v };
                return Some(parse_quote!(#x.entry_or_insert(#k, #v)));
            } }
        }
        if m == "or_insert" {
            if let Expr::MethodCall(en) = &recv { if en.method == "entry" { let (x, k) = (&en.receiver, &en.args[0]); return Some(parse_quote!(#x.entry_or_insert(#k, #a0))); } }
        }
        // maps keyed by strings or paths
        if (module.starts_with("indexmap") || module.starts_with("std::collections::hash") || module.starts_with("serde_json") || module.starts_with("phf")) && (m == "get" || m == "get_mut" || m == "contains" || m == "contains_key" || m == "remove") && is_strish(&refs(&a0ty).1) {
            let s = self.as_str(a0.as_ref().unwrap(), &a0ty);
            let mm = &e.method;
            return Some(parse_quote!(#recv.#mm(#s)));
        }
        if module.starts_with("dashmap") && (m == "get" || m == "contains_key" || m == "remove") {
            let mm = &e.method;
            let a = if refs(&a0ty).0 == 0 { quote!(&#a0) } else { quote!(#a0) };
            return Some(parse_quote!(#recv.#mm(#a)));
        }
        // higher-order functions of the crate: inlined
        if callee.starts_with("nodejs_resolver::") {
            let tyname = type_name_of_callee(info.as_ref().and_then(|i| i.callee.as_deref()).unwrap_or(""), &rb);
            let key = format!("{}::{}", tyname, m);
            if let Some(h) = self.helpers.get(&key) {
                return self.inline_helper(&key, h, Some((recv.clone(), rn)), &args, &oargs);
            }
        }
        None
    }

    fn inline_helper(&mut self, key: &str, h: &'a Helper, recv: Option<(Expr, usize)>, args: &[Expr], oargs: &[Expr]) -> Option<Expr> {
        if self.depth > 6 { self.err(format!("inlining depth at {key}")); return None; }
        self.depth += 1;
        let mut lets = vec![];
        let mut clos: HashMap<String, Expr> = HashMap::new();
        let vself = self.tmp("self");
        let mut rename_self = false;
        if let Some((r, n)) = recv {
            if h.has_self {
                rename_self = true;
                let selfarg = h.inputs.first().map(|x| x.1.to_token_stream().to_string()).unwrap_or_default();
                let by_ref = selfarg.starts_with('&');
                if let Expr::Path(p) = &r { if p.path.is_ident("self") && by_ref { rename_self = false; } }
                if rename_self { if by_ref && n == 0 { lets.push(quote!(let #vself = &#r;)); } else { lets.push(quote!(let #vself = #r;)); } }
            }
        }
        let skip = if h.has_self { 1 } else { 0 };
        for (k, (p, t)) in h.inputs.iter().skip(skip).enumerate() {
            let ts = t.to_token_stream().to_string();
            if h.generics_fn.iter().any(|g| *g == ts) || ts.starts_with("impl Fn") {
                if let Pat::Ident(i) = p { clos.insert(i.ident.to_string(), oargs[k].clone()); }
                continue;
            }
            let mut t2 = t.clone();
            self.visit_type_mut(&mut t2);
            let a = &args[k];
            lets.push(quote!(let #p: #t2 = #a;));
        }
        let mut block = h.block.clone();
        if has_ret(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: block.clone() }), true) {
            match elim_block(block.stmts.clone(), false) {
                Some(t) => { let b: Expr = match parse2(t) { Ok(b) => b, Err(_) => { self.err("inline".into()); self.depth -= 1; return None; } }; block = parse_quote!({ #b }); }
                None => { self.err(format!("cannot inline {key}")); self.depth -= 1; return None; }
            }
        }
        if rename_self {
            struct R(Ident);
            impl VisitMut for R { fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "self" { let sp = i.span(); *i = self.0.clone(); i.set_span(sp); } } }
            R(vself.clone()).visit_block_mut(&mut block);
        }
        // closure parameters: op(args) -> inlined closure
        let file = std::mem::replace(&mut self.file, h.file.clone());
        let mut placeholders: Vec<(String, Expr)> = vec![];
        if !clos.is_empty() {
            struct S<'c> { clos: &'c HashMap<String, Expr>, ph: &'c mut Vec<(String, Expr)> }
            impl<'c> VisitMut for S<'c> {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    visit_mut::visit_expr_mut(self, e);
                    if let Expr::Call(c) = e {
                        if let Expr::Path(p) = &*c.func { if let Some(i) = p.path.get_ident() { if let Some(f) = self.clos.get(&i.to_string()) {
                            let id = quote::format_ident!("vx_ph{}", self.ph.len());
                            let a = c.args.clone();
                            self.ph.push((id.to_string(), f.clone()));
                            *e = parse_quote!(#id(#a));
                        } } }
                    }
                }
            }
            S { clos: &clos, ph: &mut placeholders }.visit_block_mut(&mut block);
        }
        self.visit_block_mut(&mut block);
        self.file = file;
        if !placeholders.is_empty() {
            // now with the spans of the caller
            struct P<'x, 'y> { cx: &'x mut Ctx<'y>, ph: &'x [(String, Expr)] }
            impl<'x, 'y> VisitMut for P<'x, 'y> {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Expr::Call(c) = e {
                        if let Expr::Path(p) = &*c.func { if let Some(i) = p.path.get_ident() {
                            let n = i.to_string();
                            if let Some((_, f)) = self.ph.iter().find(|x| x.0 == n) {
                                let args: Vec<TokenStream> = c.args.iter().map(|a| a.to_token_stream()).collect();
                                if let Some(t) = self.cx.inline_closure(f, args) { *e = vexpr(t); } else { self.cx.err("closure".into()); }
                                return;
                            }
                        } }
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            P { cx: self, ph: &placeholders }.visit_block_mut(&mut block);
        }
        self.depth -= 1;
        let st = &block.stmts;
        Some(parse_quote!({ #(#lets)* #(#st)* }))
    }

    fn pat_arg(&mut self, a: &Expr, orig: &Expr, aty: &str) -> Option<(&'static str, TokenStream)> {
        let (n, b) = refs(aty);
        if b == "char" { let d = deref_all(a, n); return Some(("c", quote!(#d))); }
        if is_strish(&b) { let s = self.as_str(a, aty); return Some(("s", s)); }
        if let Expr::Closure(c) = orig {
            // |c| c == 'x'  is the pattern 'x'
            if let Expr::Binary(bx) = &*c.body { if matches!(bx.op, BinOp::Eq(_)) {
                let p = c.inputs[0].to_token_stream().to_string();
                let l = bx.left.to_token_stream().to_string();
                if l.trim_start_matches('*').trim() == p.split(':').next().unwrap().trim() { if let Expr::Lit(x) = &*bx.right { return Some(("c", quote!(#x))); } }
            } }
        }
        self.err(format!("string pattern of type {aty}"));
        None
    }

    fn closure(&mut self, f: &Expr) -> Option<TokenStream> {
        let k = self.nclosures;
        self.nclosures += 1;
        self.skeleton.push("closure".into());
        if let Expr::Closure(c) = f {
            let mut body = (*c.body).clone();
            let mut lets = vec![];
            let mut params = vec![];
            for (j, p) in c.inputs.iter().enumerate() {
                let mut p = p.clone();
                if let Pat::Type(t) = &p { p = (*t.pat).clone(); }
                if let Pat::Ident(_) = &p { params.push(quote!(#p)); }
                else {
                    let id = quote::format_ident!("vx_p{}", j);
                    params.push(quote!(#id));
                    let mut ids = vec![];
                    self.unref_pat(&mut p, false, &mut ids);
                    lets.push(quote!(let #p = #id; #(let #ids = *#ids;)*));
                }
            }
            self.visit_expr_mut(&mut body);
            let (sig, clauses) = self.closures.get(&k).cloned().unwrap_or_default();
            if sig.is_empty() { return Some(quote!(|#(#params),*| { #(#lets)* #body })); }
            // sig:  TYPE, TYPE -> NAME : TYPE
            let mut tys: Vec<TokenStream> = vec![TokenStream::new()];
            let mut ret = TokenStream::new();
            let mut in_ret = false;
            let toks: Vec<TokenTree> = sig.into_iter().collect();
            let mut i = 0;
            let mut depth = 0;
            while i < toks.len() {
                let t = &toks[i];
                if let TokenTree::Punct(p) = t {
                    if p.as_char() == '-' && matches!(toks.get(i + 1), Some(TokenTree::Punct(q)) if q.as_char() == '>') && !in_ret { in_ret = true; i += 2; continue; }
                    if p.as_char() == '<' { depth += 1; }
                    if p.as_char() == '>' { depth -= 1; }
                    if p.as_char() == ',' && depth == 0 && !in_ret { tys.push(TokenStream::new()); i += 1; continue; }
                }
                if in_ret { ret.extend(std::iter::once(t.clone())); } else { tys.last_mut().unwrap().extend(std::iter::once(t.clone())); }
                i += 1;
            }
            let ps: Vec<TokenStream> = params.iter().zip(tys.iter()).map(|(p, t)| quote!(#p: #t)).collect();
            Some(quote!(|#(#ps),*| { vx_inv!{ -> (#ret) #clauses } #(#lets)* #body }))
        } else { None }
    }

    fn desugar_fold(&mut self, recv: &Expr, oargs: &[Expr], _ty: &str) -> Option<Expr> {
        let k = self.nloops;
        self.nloops += 1;
        self.skeleton.push("fold".into());
        let mut init = oargs[0].clone();
        self.visit_expr_mut(&mut init);
        let c = match &oargs[1] { Expr::Closure(c) => c.clone(), _ => return None };
        if has_ret(&c.body, true) { self.err("return in fold".into()); }
        let (mut p0, mut p1) = (c.inputs[0].clone(), c.inputs[1].clone());
        if let Pat::Type(t) = &p0 { p0 = (*t.pat).clone(); }
        if let Pat::Type(t) = &p1 { p1 = (*t.pat).clone(); }
        let d1 = self.fix_pat(&mut p1);
        let mut body = (*c.body).clone();
        self.visit_expr_mut(&mut body);
        let it = quote::format_ident!("it{}", k);
        let i = quote::format_ident!("i{}", k);
        let acc = quote::format_ident!("acc{}", k);
        let inv = self.loops.get(&k).cloned().unwrap_or_default();
        let invs = with_auto_inv(inv, quote!(#i <= #it@.len()), quote!(#it@.len() - #i));
        let hint_s = self.loop_hints.get(&(k, "start".into())).cloned();
        let hint_e = self.loop_hints.get(&(k, "end".into())).cloned();
        let hint_b = self.loop_hints.get(&(k, "before".into())).cloned();
        let hint_a = self.loop_hints.get(&(k, "after".into())).cloned();
        Some(vexpr(quote!({
            let #it = #recv;
            let mut #i: usize = 0;
            let mut #acc = #init;
            #hint_b
            while #i < #it.len()
            { vx_inv!{ #invs } let #p1 = #it.at(#i); #d1 #i = #i + 1; #hint_s let #p0 = #acc; #acc = #body; #hint_e }
            #hint_a
            #acc
        })))
    }

    fn combinator(&mut self, module: &str, m: &str, recv: &Expr, args: &[Expr], oargs: &[Expr], ty: &str, rty: &str) -> Option<Expr> {
        let v = self.tmp("x");
        let opt = module == "core::option";
        let (okp, nonep) = if opt { (quote!(Some(#v)), quote!(None)) } else { (quote!(Ok(#v)), quote!(Err(vx_er))) };
        let keep = if opt { quote!(None) } else { quote!(Err(vx_er)) };
        let vt = quote!(#v);
        Some(match m {
            "map" => { let b = self.inline_closure(&oargs[0], vec![vt])?; let c = if opt { quote!(Some) } else { quote!(Ok) }; parse2(quote!((match #recv { #okp => #c(#b), #nonep => #keep }))).ok()? }
            "and_then" => { let b = self.inline_closure(&oargs[0], vec![vt])?; parse2(quote!((match #recv { #okp => #b, #nonep => #keep }))).ok()? }
            "map_or" if !quick(&args[0]) => { let b = self.inline_closure(&oargs[1], vec![vt])?; let d = &args[0]; let (op, np) = if opt { (quote!(Some(#v)), quote!(None)) } else { (quote!(Ok(#v)), quote!(Err(_))) }; parse2(quote!((match (#recv, #d) { (#op, _) => #b, (#np, vx_df) => vx_df }))).ok()? }
            "map_or" => { let b = self.inline_closure(&oargs[1], vec![vt])?; let d = &args[0]; let np = if opt { quote!(None) } else { quote!(Err(_)) }; parse2(quote!((match #recv { #okp => #b, #np => #d }))).ok()? }
            "map_or_else" => { let b = self.inline_closure(&oargs[1], vec![vt])?; let d = self.inline_closure(&oargs[0], if opt { vec![] } else { vec![quote!(vx_er)] })?; parse2(quote!((match #recv { #okp => #b, #nonep => #d }))).ok()? }
            "map_err" => { let b = self.inline_closure(&oargs[0], vec![quote!(vx_er)])?; parse2(quote!((match #recv { Ok(#v) => Ok(#v), Err(vx_er) => Err(#b) }))).ok()? }
            "unwrap_or_else" => { let d = self.inline_closure(&oargs[0], if opt { vec![] } else { vec![quote!(vx_er)] })?; parse2(quote!((match #recv { #okp => #v, #nonep => #d }))).ok()? }
            "ok_or_else" => { let d = self.inline_closure(&oargs[0], vec![])?; parse2(quote!((match #recv { Some(#v) => Ok(#v), None => Err(#d) }))).ok()? }
            "ok_or" if !quick(&args[0]) => { let d = &args[0]; parse2(quote!((match (#recv, #d) { (Some(#v), _) => Ok(#v), (None, vx_df) => Err(vx_df) }))).ok()? }
            "ok_or" => { let d = &args[0]; parse2(quote!((match #recv { Some(#v) => Ok(#v), None => Err(#d) }))).ok()? }
            "or_else" if opt => { let d = self.inline_closure(&oargs[0], vec![])?; parse2(quote!((match #recv { Some(#v) => Some(#v), None => #d }))).ok()? }
            "filter" => { let b = self.inline_closure(&oargs[0], vec![quote!(&#v)])?; parse2(quote!((match #recv { Some(#v) => if #b { Some(#v) } else { None }, None => None }))).ok()? }
            "is_some_and" => { let b = self.inline_closure(&oargs[0], vec![vt])?; parse2(quote!((match #recv { Some(#v) => #b, None => false }))).ok()? }
            "unwrap_or_default" => {
                let d = if ty.starts_with("std::vec::Vec") { quote!(vx_vec_new()) } else if ty == "bool" { quote!(false) } else { self.err(format!("default of {ty}")); return None };
                parse2(quote!((match #recv { #okp => #v, #nonep => #d }))).ok()?
            }
            "unwrap_or" if !quick(&args[0]) => { let d = &args[0]; let (op, np) = if opt { (quote!(Some(#v)), quote!(None)) } else { (quote!(Ok(#v)), quote!(Err(_))) }; parse2(quote!((match (#recv, #d) { (#op, _) => #v, (#np, vx_df) => vx_df }))).ok()? }
            "unwrap_or" => { let d = &args[0]; parse2(quote!((match #recv { #okp => #v, #nonep => #d }))).ok()? }
            "is_some" => { let r = self.as_ref1(recv, rty); parse2(quote!((match #r { Some(_) => true, None => false }))).ok()? }
            "is_none" => { let r = self.as_ref1(recv, rty); parse2(quote!((match #r { Some(_) => false, None => true }))).ok()? }
            "is_ok" => { let r = self.as_ref1(recv, rty); parse2(quote!((match #r { Ok(_) => true, Err(_) => false }))).ok()? }
            "is_err" => { let r = self.as_ref1(recv, rty); parse2(quote!((match #r { Ok(_) => false, Err(_) => true }))).ok()? }
            "ok" => parse2(quote!((match #recv { Ok(#v) => Some(#v), Err(_) => None }))).ok()?,
            "as_ref" if opt && refs(rty).0 <= 1 => { let r = self.as_ref1(recv, rty); parse2(quote!((match #r { Some(#v) => Some(#v), None => None }))).ok()? }
            "copied" | "cloned" => { parse2(quote!((match #recv { Some(#v) => Some(vx_clone(#v)), None => None }))).ok()? }
            "get_or_insert_with" if opt => {
                let d = if let Expr::Path(p) = &oargs[0] { let mut p = p.path.clone(); self.fix_path(&mut p); quote!(#p()) } else { self.inline_closure(&oargs[0], vec![])? };
                let r = if refs(rty).0 == 0 { quote!(&mut #recv) } else { quote!(#recv) };
                parse2(quote!(opt_get_or_insert(#r, #d))).ok()?
            }
            "or" if opt && quick(&args[0]) => { let d = &args[0]; parse2(quote!((match #recv { Some(#v) => Some(#v), None => #d }))).ok()? }
            "unwrap" | "as_mut" | "expect" => return None,
            _ => { self.err(format!("{module}::{m}")); return None; }
        })
    }

    fn eq(&mut self, l: &Expr, lt: &str, r: &Expr, rt: &str, method: bool) -> Option<Expr> {
        let (ln, lb) = refs(lt);
        let (rn, rb) = refs(rt);
        if is_path(&lb) { let (a, b) = (self.as_ref1(l, lt), self.as_ref1(r, rt)); return Some(parse_quote!(path_eq(#a, #b))); }
        if is_strish(&lb) && is_strish(&rb) { let (a, b) = (self.as_str(l, lt), self.as_str(r, rt)); return Some(parse_quote!(s_eq(#a, #b))); }
        if lb == "std::ffi::OsStr" && is_strish(&rb) { let (a, b) = (self.as_ref1(l, lt), self.as_str(r, rt)); return Some(parse_quote!(os_eq(#a, #b))); }
        if lb == "char" || lb == "usize" || lb == "bool" || lb == "i32" || lb == "u64" {
            let (a, b) = (deref_all(l, ln), deref_all(r, rn));
            let _ = method;
            return Some(parse_quote!((#a == #b)));
        }
        if lb.starts_with("std::option::Option<std::string::String") { let (a, b) = (self.as_ref1(l, lt), self.as_ref1(r, rt)); return Some(parse_quote!(opt_string_eq(#a, #b))); }
        if lb.is_empty() { return None; }
        let (a, b) = (self.as_ref1(l, lt), self.as_ref1(r, rt));
        Some(parse_quote!(vx_eq(#a, #b)))
    }
}
/// an argument whose evaluation cannot fail and does nothing
fn quick(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Field(f) => quick(&f.base),
        Expr::Reference(r) => quick(&r.expr),
        Expr::Paren(p) => quick(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_) | UnOp::Not(_)) && quick(&u.expr),
        Expr::Tuple(t) => t.elems.iter().all(quick),
        // constructors, and copies of values
        Expr::Call(c) => c.args.iter().all(quick) && matches!(c.func.to_token_stream().to_string().replace(' ', "").as_str(), "Some" | "Ok" | "Err" | "vx_clone" | "s_to_string" | "string_new" | "vx_vec_new"),
        Expr::MethodCall(m) => (m.method == "as_str" || m.method == "as_pathstr") && quick(&m.receiver),
        _ => false,
    }
}
pub fn type_name_of_callee(callee: &str, recv_base: &str) -> String {
    let _ = callee;
    recv_base.split('<').next().unwrap().rsplit("::").next().unwrap().to_string()
}
fn deref_all(e: &Expr, n: usize) -> TokenStream { let stars = vec![quote!(*); n]; if n == 0 { quote!(#e) } else { quote!((#(#stars)* #e)) } }
pub fn with_auto_inv(inv: TokenStream, auto: TokenStream, dec: TokenStream) -> TokenStream {
    // inv: "invariant ... , decreases ..." in source form; the automatic one goes first
    let s = inv.to_string();
    if s.trim().is_empty() { return quote!(invariant #auto, decreases #dec,); }
    let has_dec = s.contains("decreases");
    let toks: Vec<TokenTree> = inv.into_iter().collect();
    let mut head = TokenStream::new();
    let mut rest = TokenStream::new();
    let mut seen = false;
    for t in toks {
        if let TokenTree::Ident(i) = &t { if !seen && (i == "invariant") { seen = true; continue; } }
        if seen { rest.extend(std::iter::once(t)); } else { head.extend(std::iter::once(t)); }
    }
    if seen { if has_dec { quote!(#head invariant #auto, #rest) } else { quote!(#head invariant #auto, #rest decreases #dec,) } }
    else { quote!(invariant #auto, #head) }
}

impl<'a> VisitMut for Ctx<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        crate::TyFix { generic_paths: vec![] }.visit_type_mut(t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) { self.fix_path(p); }
    fn visit_pat_mut(&mut self, p: &mut Pat) { visit_mut::visit_pat_mut(self, p); }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => !dropped(&l.attrs),
            Stmt::Expr(e, _) => !dropped(expr_attrs(e)),
            Stmt::Macro(m) => !dropped(&m.attrs),
            Stmt::Item(_) => true,
        });
        for s in b.stmts.iter_mut() { self.visit_stmt_mut(s); }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        match s {
            Stmt::Local(l) => {
                if let Pat::Ident(i) = &l.pat {
                    if let Some(init) = &l.init { let t = self.ty(init.expr.span()); if !t.is_empty() { self.locals.insert(i.ident.to_string(), render_ty(&t)); } }
                }
                if let Some(init) = &mut l.init {
                    // `let p = match e { .., A => return x }` is fine as it is
                    self.visit_expr_mut(&mut init.expr);
                    if let Some((_, d)) = &mut init.diverge { self.visit_expr_mut(d); }
                }
                self.no_strlit(&l.pat);
                let d = self.fix_pat(&mut l.pat);
                if !d.is_empty() { self.err("reference pattern in let".into()); }
            }
            Stmt::Macro(m) => {
                match self.mac(&m.mac.clone()) {
                    Some(e) => *s = Stmt::Expr(e, m.semi_token),
                    None => { let n = m.mac.path.to_token_stream().to_string(); self.err(format!("macro {n}")); }
                }
            }
            _ => visit_mut::visit_stmt_mut(self, s),
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let span = e.span();
        let info = self.info(span).cloned();
        match e {
            Expr::Macro(m) => {
                match self.mac(&m.mac.clone()) {
                    Some(x) => *e = x,
                    None => { let n = m.mac.path.to_token_stream().to_string(); self.err(format!("macro {n}")); }
                }
            }
            Expr::Lit(l) => { if let Lit::Str(s) = &l.lit { let v = s.value(); self.lit(&v); } }
            Expr::Path(p) => {
                if let Some(i) = p.path.segments.last() {
                    let n = i.ident.to_string();
                    if let Some(v) = self.str_consts.get(&n) { let v = v.clone(); self.lit(&v); *e = parse_quote!(#v); return; }
                    if self.statics.contains(&n) { let f = quote::format_ident!("static_{}", n); *e = parse_quote!(#f()); return; }
                }
                self.fix_path(&mut p.path);
            }
            Expr::MethodCall(m) => {
                let orig = m.clone();
                let rty = self.ty(m.receiver.span());
                let argtys: Vec<String> = m.args.iter().map(|a| self.ty(a.span())).collect();
                let callee = info.as_ref().and_then(|i| i.callee.clone()).map(|c| short(&c)).unwrap_or_default();
                self.visit_expr_mut(&mut m.receiver);
                if let Some(t) = &mut m.turbofish { for x in t.args.iter_mut() { if let GenericArgument::Type(t) = x { self.visit_type_mut(t); } } }
                // closures are handled by the rule for the callee, with their original spans
                for a in m.args.iter_mut() { if !matches!(a, Expr::Closure(_)) { self.visit_expr_mut(a); } }
                let m2 = m.clone();
                let mut x = self.method(&m2, &orig, info, rty.clone(), argtys);
                if x.is_none() && m2.args.iter().any(|a| matches!(a, Expr::Closure(_))) { self.err(format!("closure passed to {callee}")); }
                if let Some(hs) = self.call_hints.get(&m2.method.to_string()).cloned() { if let Some(h) = hs.first() { let cur: Expr = x.take().unwrap_or_else(|| Expr::MethodCall(m2.clone())); x = Some(parse_quote!({ #h #cur })); } }
                if let Some(x) = x { *e = x; }
            }
            Expr::Call(c) => {
                let argtys: Vec<String> = c.args.iter().map(|a| self.ty(a.span())).collect();
                let oargs: Vec<Expr> = c.args.iter().cloned().collect();
                for a in c.args.iter_mut() { if !matches!(a, Expr::Closure(_)) { self.visit_expr_mut(a); } }
                let mut c2 = c.clone();
                if let Some(x) = self.call(&mut c2, info, argtys) { *e = x; return; }
                self.visit_expr_mut(&mut c2.func);
                if let Expr::Path(p) = &*c2.func {
                    let mut key = p.path.to_token_stream().to_string().replace(' ', "");
                    if let Some(r) = key.strip_prefix("Self::") { key = format!("{}::{}", self.self_ty, r); }
                    if let Some(h) = self.helpers.get(&key) {
                        let args: Vec<Expr> = c2.args.iter().cloned().collect();
                        if let Some(x) = self.inline_helper(&key, h, None, &args, &oargs) { *e = x; return; }
                    }
                }
                *e = Expr::Call(c2);
            }
            Expr::Binary(b) => {
                let (lt, rt) = (self.ty(b.left.span()), self.ty(b.right.span()));
                let prim = |t: &str| ["usize", "i32", "bool", "char", "u64", "u32", "i64"].contains(&t);
                let is_eq = matches!(b.op, BinOp::Eq(_));
                let is_ne = matches!(b.op, BinOp::Ne(_));
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                if (is_eq || is_ne) && !prim(&lt) {
                    let (l, r) = ((*b.left).clone(), (*b.right).clone());
                    if let Some(x) = self.eq(&l, &lt, &r, &rt, false) { *e = if is_ne { parse_quote!((!#x)) } else { x }; }
                } else if matches!(b.op, BinOp::BitAnd(_)) && lt == "bool" {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(vx_band(#l, #r));
                } else if matches!(b.op, BinOp::Ge(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Lt(_)) && lt.contains("time::Duration") {
                    let (l, r) = (&b.left, &b.right);
                    let f = quote::format_ident!("dur_{}", match b.op { BinOp::Ge(_) => "ge", BinOp::Gt(_) => "gt", BinOp::Le(_) => "le", _ => "lt" });
                    *e = parse_quote!(#f(#l, #r));
                }
            }
            Expr::Index(ix) => {
                let mut bt = self.ty(ix.expr.span());
                if bt.is_empty() && info.as_ref().map_or(false, |i| i.ty == "str") { bt = "smol_str::SmolStr".into(); }
                let (bn, bb) = refs(&bt);
                let it = self.ty(ix.index.span());
                let range = if let Expr::Range(r) = &*ix.index { Some(r.clone()) } else { None };
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let base = (*ix.expr).clone();
                if let Expr::Call(c) = &base { if c.func.to_token_stream().to_string().starts_with("static_") && range.is_none() { let i = &ix.index; *e = parse_quote!(#base.idx(#i)); return; } }
                if let Some(_) = range {
                    let r = if let Expr::Range(r) = &*ix.index { r.clone() } else { unreachable!() };
                    let incl = matches!(r.limits, RangeLimits::Closed(_));
                    let lo = r.start.as_ref().map(|x| x.to_token_stream()).unwrap_or(quote!(0));
                    if is_strish(&bb) {
                        let s = self.as_str(&base, &bt);
                        let hi = match &r.end { Some(h) => if incl { quote!((#h) + 1) } else { quote!(#h) }, None => quote!(s_len(#s)) };
                        *e = parse_quote!(s_slice(#s, #lo, #hi));
                    } else {
                        let isvec = bb.starts_with("std::vec::Vec");
                        let b = if bn == 0 { quote!(&#base) } else { quote!(#base) };
                        let f = if isvec { quote!(vec_slice) } else { quote!(slice_slice) };
                        let hi = match &r.end { Some(h) => if incl { quote!((#h) + 1) } else { quote!(#h) }, None => quote!(#base.len()) };
                        *e = parse_quote!(#f(#b, #lo, #hi));
                    }
                } else if bb == "serde_json::Value" {
                    let s = self.as_str(&(*ix.index).clone(), &it);
                    let b = if bn == 0 { quote!(&#base) } else { quote!(#base) };
                    *e = parse_quote!((*value_index(#b, #s)));
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr { if let Expr::Range(_) = &*ix.index { self.visit_expr_mut(&mut r.expr); *e = (*r.expr).clone(); return; } }
                // &iter.collect::<String>() and the like stay as they are
                if let Expr::Unary(u) = &*r.expr {
                    if let UnOp::Deref(_) = u.op {
                        // &*s, &**s of string type
                        let t = info.as_ref().map(|i| i.ty.clone()).unwrap_or_default();
                        let (_, b) = refs(&t);
                        if b == "str" && r.mutability.is_none() {
                            // find the variable under the dereferences
                            let mut x = (*u.expr).clone();
                            while let Expr::Unary(u2) = &x { if let UnOp::Deref(_) = u2.op { let n = (*u2.expr).clone(); x = n; } else { break; } }
                            let xt = self.ty(x.span());
                            self.visit_expr_mut(&mut x);
                            let (_, xb) = refs(&xt);
                            if is_strish(&xb) { let s = self.as_str(&x, &xt); *e = parse2(s).unwrap(); return; }
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Unary(u) => {
                visit_mut::visit_expr_unary_mut(self, u);
            }
            Expr::ForLoop(f) => { let f2 = f.clone(); *e = self.desugar_for(f2); }
            Expr::While(w) => {
                let k = self.nloops; self.nloops += 1; self.skeleton.push("while".into());
                let inv = self.loops.get(&k).cloned().unwrap_or_default();
                let hint_s = self.loop_hints.get(&(k, "start".into())).cloned();
                let hint_e = self.loop_hints.get(&(k, "end".into())).cloned();
                let hint_a = self.loop_hints.get(&(k, "after".into())).cloned();
                let hint_b = self.loop_hints.get(&(k, "before".into())).cloned();
                let label = w.label.clone().map(|l| quote!(#l));
                if let Expr::Let(l) = &*w.cond {
                    let (mut p, mut x) = ((*l.pat).clone(), (*l.expr).clone());
                    self.no_strlit(&p);
                    let d = self.fix_pat(&mut p);
                    self.visit_expr_mut(&mut x);
                    self.visit_block_mut(&mut w.body);
                    let st = &w.body.stmts;
                    *e = vexpr(quote!({ #hint_b #label loop { vx_inv!{ #inv } match #x { #p => { #d #hint_s #(#st)* ; #hint_e } _ => { break; } } } #hint_a }));
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    let (c, st) = (&w.cond, &w.body.stmts);
                    *e = vexpr(quote!({ #hint_b #label while #c { vx_inv!{ #inv } #hint_s #(#st)* ; #hint_e } #hint_a }));
                }
            }
            Expr::Loop(l) => {
                let k = self.nloops; self.nloops += 1; self.skeleton.push("loop".into());
                let inv = self.loops.get(&k).cloned().unwrap_or_default();
                let hint_s = self.loop_hints.get(&(k, "start".into())).cloned();
                let hint_b = self.loop_hints.get(&(k, "before".into())).cloned();
                let label = l.label.clone().map(|l| quote!(#l));
                self.visit_block_mut(&mut l.body);
                let st = &l.body.stmts;
                *e = vexpr(quote!(#label loop { vx_inv!{ #inv } #hint_s #(#st)* }));
                if let Some(h) = hint_b { let x = e.clone(); *e = vexpr(quote!({ #h #x })); }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    let mut sg = vec![];
                    self.strlit_pat(&mut a.pat, &mut sg);
                    let d = self.fix_pat(&mut a.pat);
                    if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
                    if !sg.is_empty() {
                        if let Some((_, g)) = &a.guard { sg.push(quote!((#g))); }
                        a.guard = Some((Default::default(), parse_quote!(#(#sg)&&*)));
                    }
                    self.visit_expr_mut(&mut a.body);
                    if !d.is_empty() { if a.guard.is_some() { self.err("guard with reference pattern".into()); } let b = &a.body; *a.body = parse_quote!({ #d #b }); }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    let mut p = (*l.pat).clone();
                    let mut sg = vec![];
                    self.strlit_pat(&mut p, &mut sg);
                    if !sg.is_empty() {
                        // if let "x" = e { A } else { B }
                        let mut x = (*l.expr).clone();
                        let d = self.fix_pat(&mut p);
                        if !d.is_empty() { self.err("reference pattern with a string literal".into()); }
                        self.visit_expr_mut(&mut x);
                        self.visit_block_mut(&mut i.then_branch);
                        if let Some((_, x)) = &mut i.else_branch { self.visit_expr_mut(x); }
                        let a = &i.then_branch;
                        let b = i.else_branch.as_ref().map(|x| x.1.to_token_stream()).unwrap_or(quote!({}));
                        *e = parse_quote!((match #x { #p if #(#sg)&&* => #a, _ => #b }));
                        return;
                    }
                }
                let mut d = TokenStream::new();
                if let Expr::Let(l) = &mut *i.cond {
                    let mut p = (*l.pat).clone();
                    d = self.fix_pat(&mut p);
                    *l.pat = p;
                    self.visit_expr_mut(&mut l.expr);
                } else { self.visit_expr_mut(&mut i.cond); }
                self.visit_block_mut(&mut i.then_branch);
                if !d.is_empty() { let st = &i.then_branch.stmts; i.then_branch = parse_quote!({ #d #(#st)* }); }
                if let Some((_, x)) = &mut i.else_branch { self.visit_expr_mut(x); }
            }
            Expr::Closure(_) => { self.err("closure".into()); }
            Expr::Struct(s) => {
                s.fields = s.fields.iter().filter(|f| !dropped(&f.attrs)).cloned().collect();
                if s.rest.is_some() { s.fields.push_punct(Default::default()); }
                visit_mut::visit_expr_struct_mut(self, s);
            }
            Expr::Assign(a) => { visit_mut::visit_expr_assign_mut(self, a); }
            Expr::Paren(_) => visit_mut::visit_expr_mut(self, e),
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
pub fn vexpr(t: TokenStream) -> Expr { match parse2::<Expr>(t.clone()) { Ok(e) => e, Err(_) => Expr::Verbatim(t) } }
pub fn render_ty(t: &str) -> String {
    let mut s = t.replace("'{erased} ", "").replace("'static ", "").replace("'_ ", "").replace(", std::alloc::Global", "").replace(", alloc::alloc::Global", "");
    // drop module paths
    let mut out = String::new();
    let mut cur = String::new();
    s.push(' ');
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphanumeric() || c == '_' { cur.push(c); }
        else if c == ':' && cs.get(i + 1) == Some(&':') { cur.clear(); i += 2; continue; }
        else { out.push_str(&cur); cur.clear(); out.push(c); }
        i += 1;
    }
    out.trim().to_string()
}
pub fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(x) => &x.attrs, Expr::MethodCall(x) => &x.attrs, Expr::Call(x) => &x.attrs, Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs, Expr::Macro(x) => &x.attrs, Expr::Assign(x) => &x.attrs, _ => &[],
    }
}
