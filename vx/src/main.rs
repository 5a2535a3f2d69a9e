//! vx: extracts the functions of /repo/src into one Verus file, merged with the contracts of /verif/contracts.
mod contract;
mod thir;
mod tx;
use contract::Contract;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::VisitMut;
use syn::*;
use tx::{dropped, Ctx, Helper};

#[derive(Clone)]
pub struct Func {
    pub key: String,       // Type::name or name
    pub self_ty: String,   // "" for a free function
    pub impl_head: String, // text of `impl<..> T<..>`
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub line: usize,
    pub line_end: usize,
    pub from_trait_default: Option<String>, // the marker type it was instantiated for
    pub src: String,
}
#[derive(Default)]
pub struct Items {
    funcs: BTreeMap<String, Func>,
    order: Vec<String>,
    types: Vec<(String, String)>, // name, verus text
    defaults: Vec<String>,
    str_consts: HashMap<String, String>,
    arrays: BTreeMap<String, Vec<String>>,
    pmas: BTreeMap<String, String>,
    statics: BTreeSet<String>,
    display: BTreeSet<String>,
    errors: Vec<String>,
    struct_fields: HashMap<String, Vec<(String, Type)>>,
}

fn ty_last(t: &Type) -> String {
    match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), Type::Reference(r) => ty_last(&r.elem), _ => String::new() }
}
fn has_attr(attrs: &[Attribute], s: &str) -> bool { attrs.iter().any(|a| a.to_token_stream().to_string().contains(s)) }

thread_local! { static ALIASES: std::cell::RefCell<HashMap<String, Type>> = Default::default(); }
fn collect_aliases(items: &[Item]) {
    for i in items { match i {
        Item::Type(t) if t.generics.params.is_empty() && !dropped(&t.attrs) => { ALIASES.with(|a| a.borrow_mut().insert(t.ident.to_string(), (*t.ty).clone())); }
        Item::Mod(m) => if let Some((_, its)) = &m.content { collect_aliases(its) },
        _ => {}
    } }
}
/// only path and name changes: the types of the extracted program
pub struct TyFix { pub generic_paths: Vec<String> }
/// names of locals that are words of the verifier's dialect get an underscore (a pure renaming)
const WORDS: &[&str] = &["real", "int", "nat", "spec", "proof", "exec", "tracked", "ghost", "open", "closed", "ensures", "requires", "invariant", "decreases", "recommends", "choose", "forall", "exists", "assume", "global", "axiom", "broadcast", "via", "when", "returns", "opens_invariants", "no_unwind", "FORALL", "EXISTS"];
fn word(i: &syn::Ident) -> Option<syn::Ident> { if WORDS.contains(&i.to_string().as_str()) { Some(syn::Ident::new(&format!("{i}_"), i.span())) } else { None } }
#[derive(Default)]
struct Words { bound: std::collections::HashSet<String>, bind: bool }
impl VisitMut for Words {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = word(&p.ident) { if self.bind { self.bound.insert(p.ident.to_string()); } else { p.ident = n; } }
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, p: &mut FieldPat) { syn::visit_mut::visit_field_pat_mut(self, p); if p.colon_token.is_none() { if let (Member::Named(m), Pat::Ident(i)) = (&p.member, &*p.pat) { if *m != i.ident { p.colon_token = Some(Default::default()); } } } }
    fn visit_field_value_mut(&mut self, p: &mut FieldValue) { syn::visit_mut::visit_field_value_mut(self, p); if p.colon_token.is_none() { if let (Member::Named(m), Expr::Path(i)) = (&p.member, &p.expr) { if !i.path.is_ident(m) { p.colon_token = Some(Default::default()); } } } }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() { if self.bound.contains(&i.to_string()) { if let Some(n) = word(i) { p.path = n.into(); } } }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(w: &Words, ts: TokenStream) -> TokenStream {
            ts.into_iter().map(|t| match t {
                proc_macro2::TokenTree::Ident(i) if w.bound.contains(&i.to_string()) => proc_macro2::TokenTree::Ident(word(&i).unwrap()),
                proc_macro2::TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), go(w, g.stream())); n.set_span(g.span()); proc_macro2::TokenTree::Group(n) }
                t => t }).collect()
        }
        if !self.bind { m.tokens = go(self, m.tokens.clone()); }
    }
}
impl VisitMut for TyFix {
    fn visit_type_mut(&mut self, t: &mut Type) {
        syn::visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let last = p.path.segments.last().cloned().unwrap();
            let n = last.ident.to_string();
            if self.generic_paths.contains(&n) && p.path.segments.len() == 1 { *t = parse_quote!(&PathBuf); return; }
            if n == "RResult" { if let PathArguments::AngleBracketed(a) = &last.arguments { let a = a.args.first(); *t = parse_quote!(Result<#a, String>); return; } }
            if p.path.segments.len() == 1 && last.arguments.is_none() { if let Some(x) = ALIASES.with(|a| a.borrow().get(&n).cloned()) { *t = x; self.visit_type_mut(t); return; } }
            let new = match n.as_str() {
                "SmolStr" | "ResolverError" => Some("String"),
                "Path" => Some("PathBuf"),
                _ => None,
            };
            let mut l = last.clone();
            if let Some(nn) = new { l.ident = quote::format_ident!("{}", nn); }
            p.path = syn::Path { leading_colon: None, segments: [l].into_iter().collect() };
        }
        if let Type::Slice(s) = t { let _ = s; }
    }
}

fn default_expr(t: &Type) -> TokenStream {
    let s = t.to_token_stream().to_string().replace(' ', "");
    if s.starts_with("Option<") { quote!(None) }
    else if s == "String" { quote!(string_new()) }
    else if s == "bool" { quote!(false) }
    else if s.starts_with("Vec<") { quote!(vx_vec_new()) }
    else if s.starts_with("Arc<") { if let Type::Path(p) = t { if let PathArguments::AngleBracketed(a) = &p.path.segments[0].arguments { if let Some(GenericArgument::Type(i)) = a.args.first() { let e = default_expr(i); return quote!(Arc::new(#e)); } } } quote!(Arc::default()) }
    else if s.starts_with("IndexMap<") { quote!(IndexMap::new()) }
    else if s.starts_with("DashMap<") { quote!(DashMap::new()) }
    else if s == "Duration" { quote!(Duration::default()) }
    else { let i = quote::format_ident!("{}", ty_last(t)); quote!(#i::default()) }
}

fn collect_file(path: &std::path::Path, rel: &str, it: &mut Items) {
    let text = std::fs::read_to_string(path).unwrap();
    let file = match parse_file(&text) { Ok(f) => f, Err(e) => { it.errors.push(format!("{rel}: {e}")); return; } };
    collect_items(file.items, rel, it, &text);
}
fn add_fn(it: &mut Items, f: Func) { if !it.funcs.contains_key(&f.key) { it.order.push(f.key.clone()); } it.funcs.insert(f.key.clone(), f); }
fn span_lines(b: &Block, s: &Signature) -> (usize, usize) { (s.fn_token.span.start().line, b.brace_token.span.close().end().line) }
fn collect_items(items: Vec<Item>, rel: &str, it: &mut Items, text: &str) {
    for item in items {
        match item {
            Item::Fn(f) => {
                if dropped(&f.attrs) || has_attr(&f.attrs, "test") { continue; }
                let (l, le) = span_lines(&f.block, &f.sig);
                add_fn(it, Func { key: f.sig.ident.to_string(), self_ty: String::new(), impl_head: String::new(), line: l, line_end: le, block: *f.block, sig: f.sig, file: rel.into(), from_trait_default: None, src: String::new() });
            }
            Item::Mod(m) => { if dropped(&m.attrs) || m.ident == "test" || m.ident == "tests" || m.ident == "test_helper" { continue; } if let Some((_, its)) = m.content { collect_items(its, rel, it, text); } }
            Item::Struct(mut s) => {
                if dropped(&s.attrs) { continue; }
                let derive_default = s.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Default"));
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                let mut fx = TyFix { generic_paths: vec![] };
                let mut fields = vec![];
                if let Fields::Named(n) = &mut s.fields {
                    n.named = n.named.iter().filter(|f| !dropped(&f.attrs)).cloned().collect();
                    for f in n.named.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); fx.visit_type_mut(&mut f.ty); fields.push((f.ident.as_ref().unwrap().to_string(), f.ty.clone())); }
                } else if let Fields::Unnamed(n) = &mut s.fields { for f in n.unnamed.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); fx.visit_type_mut(&mut f.ty); } }
                let name = s.ident.to_string();
                if let Fields::Unit = s.fields { let i = &s.ident; it.types.push((name.clone(), print(quote!(pub struct #i {})))); }
                else { it.types.push((name.clone(), print(s.to_token_stream()))); }
                if derive_default {
                    let i = &s.ident;
                    let es: Vec<TokenStream> = fields.iter().map(|(n, t)| { let n = quote::format_ident!("{}", n); let e = default_expr(t); quote!(#n: #e) }).collect();
                    let block: Block = parse_quote!({ #i { #(#es),* } });
                    let sig: Signature = parse_quote!(fn default() -> Self);
                    it.defaults.push(format!("{name}::default"));
                    add_fn(it, Func { key: format!("{name}::default"), self_ty: name.clone(), impl_head: format!("impl {name}"), sig, block, file: rel.into(), line: 0, line_end: 0, from_trait_default: None, src: "derive(Default)".into() });
                }
                it.struct_fields.insert(name, fields);
            }
            Item::Enum(mut e) => {
                if dropped(&e.attrs) { continue; }
                e.attrs.clear(); e.vis = parse_quote!(pub);
                let mut fx = TyFix { generic_paths: vec![] };
                for v in e.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); fx.visit_type_mut(&mut f.ty); } }
                it.types.push((e.ident.to_string(), print(e.to_token_stream())));
            }
            Item::Static(ItemStatic { ident, ty, expr, .. }) | Item::Const(ItemConst { ident, ty, expr, .. }) => collect_static(it, &ident, &ty, &expr),
            Item::Impl(im) => {
                if dropped(&im.attrs) { continue; }
                let tname = ty_last(&im.self_ty);
                let trait_name = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                if trait_name == "Display" {
                    for x in im.items { if let ImplItem::Fn(f) = x {
                        let (l, le) = span_lines(&f.block, &f.sig);
                        let sig: Signature = parse_quote!(fn to_disp(&self) -> String);
                        it.display.insert(tname.clone());
                        add_fn(it, Func { key: format!("{tname}::to_disp"), self_ty: tname.clone(), impl_head: format!("impl {tname}"), sig, block: f.block, file: rel.into(), line: l, line_end: le, from_trait_default: None, src: String::new() });
                    } }
                    continue;
                }
                let (tn, head) = if trait_name == "Field" { (format!("{tname}F"), format!("impl {tname}F")) } else {
                    let g = &im.generics; let mut st = (*im.self_ty).clone(); TyFix { generic_paths: vec![] }.visit_type_mut(&mut st);
                    (tname.clone(), format!("impl {} {}", print(g.to_token_stream()), print(st.to_token_stream())))
                };
                for x in im.items { if let ImplItem::Fn(f) = x {
                    if dropped(&f.attrs) || has_attr(&f.attrs, "test") { continue; }
                    let (l, le) = span_lines(&f.block, &f.sig);
                    let key = format!("{tn}::{}", f.sig.ident);
                    add_fn(it, Func { key, self_ty: tn.clone(), impl_head: head.clone(), sig: f.sig, block: f.block, file: rel.into(), line: l, line_end: le, from_trait_default: None, src: String::new() });
                } else if let ImplItem::Const(c) = x { collect_static(it, &c.ident, &c.ty, &c.expr); } }
            }
            Item::Trait(t) => {
                if t.ident != "Field" { continue; }
                for x in t.items { if let TraitItem::Fn(f) = x { if let Some(b) = f.default {
                    for m in ["ExportsFieldF", "ImportsFieldF"] {
                        let (l, le) = span_lines(&b, &f.sig);
                        let key = format!("{m}::{}", f.sig.ident);
                        if it.funcs.contains_key(&key) { continue; }
                        add_fn(it, Func { key, self_ty: m.into(), impl_head: format!("impl {m}"), sig: f.sig.clone(), block: b.clone(), file: rel.into(), line: l, line_end: le, from_trait_default: Some(m.into()), src: String::new() });
                    }
                } } }
            }
            _ => {}
        }
    }
    let _ = text;
}
fn collect_static(it: &mut Items, ident: &Ident, ty: &Type, expr: &Expr) {
    let n = ident.to_string();
    let ts = ty.to_token_stream().to_string().replace(' ', "");
    if let Expr::Lit(l) = expr { if let Lit::Str(s) = &l.lit { it.str_consts.insert(n, s.value()); return; } }
    if ts.starts_with("[&str;") || ts.starts_with("&[&str") || ts.starts_with("[&'staticstr") || ts.starts_with("&'static[&") {
        let e = if let Expr::Reference(r) = expr { (*r.expr).clone() } else { expr.clone() };
        if let Expr::Array(a) = e {
            let v: Vec<String> = a.elems.iter().filter_map(|e| if let Expr::Lit(l) = e { if let Lit::Str(s) = &l.lit { Some(s.value()) } else { None } } else { None }).collect();
            if v.len() == a.elems.len() { it.arrays.insert(n.clone(), v); it.statics.insert(n); return; }
        }
    }
    if let Expr::Macro(m) = expr {
        // phf_set! { "a", "b", .. }
        if m.mac.path.segments.last().map_or(false, |x| x.ident == "phf_set") {
            if let Ok(v) = m.mac.parse_body_with(punctuated::Punctuated::<LitStr, Token![,]>::parse_terminated) { it.arrays.insert(n.clone(), v.iter().map(|x| x.value()).collect()); it.statics.insert(n); return; }
        }
    }
    if ts.contains("DoubleArrayAhoCorasick") {
        // leftmost-longest (or -first: the same for the leftmost occurrence) over one static table
        let e = expr.to_token_stream().to_string().replace(' ', "");
        if e.contains("match_kind(MatchKind::LeftmostLongest)") || e.contains("match_kind(MatchKind::LeftmostFirst)") {
            if let Some(i) = e.find(".build(&") { let t: String = e[i + 8..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect(); it.pmas.insert(n.clone(), t); }
        }
    }
    it.statics.insert(n);
}

/// tokens -> text, one statement per line; `{ vx_inv!{X} ..` becomes `X { ..` and `vx_hint!{X}` becomes `X`
pub fn print(ts: TokenStream) -> String {
    let mut out = String::new();
    pr(ts, &mut out);
    out
}
fn macro_at(v: &[TokenTree], i: usize, name: &str) -> Option<(TokenStream, usize)> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (v.get(i), v.get(i + 1), v.get(i + 2)) {
        if id == name && p.as_char() == '!' {
            let mut n = 3;
            if let Some(TokenTree::Punct(p)) = v.get(i + 3) { if p.as_char() == ';' { n = 4; } }
            return Some((g.stream(), n));
        }
    }
    None
}
fn pr(ts: TokenStream, out: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some((x, n)) = macro_at(&v, i, "vx_hint") { out.push('\n'); pr(x, out); out.push('\n'); i += n; continue; }
        match &v[i] {
            TokenTree::Group(g) => {
                match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut start = 0;
                        if let Some((x, n)) = macro_at(&inner, 0, "vx_inv") { out.push('\n'); pr(x, out); out.push('\n'); start = n; }
                        out.push_str("{\n");
                        pr(inner[start..].iter().cloned().collect(), out);
                        out.push_str("\n}\n");
                    }
                    Delimiter::Parenthesis => { out.push('('); pr(g.stream(), out); out.push(')'); out.push(' '); }
                    Delimiter::Bracket => { out.push('['); pr(g.stream(), out); out.push(']'); out.push(' '); }
                    Delimiter::None => { pr(g.stream(), out); }
                }
            }
            TokenTree::Ident(id) if id.to_string().starts_with("r#") => { out.push_str("vx_raw_"); out.push_str(&id.to_string()[2..]); out.push(' '); }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' { out.push('\n'); }
                else if p.spacing() == Spacing::Alone { out.push(' '); }
            }
            TokenTree::Ident(id) => {
                out.push_str(&id.to_string());
                let next_bang = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '!' || p.as_char() == '.' || p.as_char() == ':');
                let next_paren = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis || g.delimiter() == Delimiter::Bracket);
                if !next_bang && !(next_paren && !["in", "if", "match", "return", "while", "mut", "as", "requires", "ensures", "invariant", "decreases", "by", "let", "else"].contains(&id.to_string().as_str())) { out.push(' '); }
            }
            TokenTree::Literal(l) => { out.push_str(&l.to_string()); if !matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '.' || p.as_char() == ',') { out.push(' '); } }
        }
        i += 1;
    }
}

fn toks(s: &str, errs: &mut Vec<String>) -> TokenStream {
    match s.parse::<TokenStream>() { Ok(t) => t, Err(e) => { errs.push(format!("contract text: {e}: {s}")); TokenStream::new() } }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let thir = get("--thir").expect("--thir");
    let src = get("--src").expect("--src");
    let cdir = get("--contracts").expect("--contracts");
    let out = get("--out").expect("--out");
    let map = get("--map").expect("--map");
    let external: BTreeSet<String> = get("--external").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();

    if let Some(d) = get("--dump") { let t = thir::Table::parse(&std::fs::read_to_string(&thir).unwrap()); let mut v: Vec<_> = t.m.iter().filter(|(k, _)| format!("{}:{}", k.0, k.1) == d).collect(); v.sort_by_key(|x| x.0.clone()); for (k, i) in v { println!("{}:{}:{}-{}:{} {:?}", k.0, k.1, k.2, k.3, k.4, i.iter().map(|i| (&i.ty, &i.callee)).collect::<Vec<_>>()); } return; }
    let table = thir::Table::parse(&std::fs::read_to_string(&thir).unwrap());
    let mut it = Items::default();
    let mut files = vec![];
    fn walk(d: &std::path::Path, v: &mut Vec<std::path::PathBuf>) { let mut e: Vec<_> = std::fs::read_dir(d).unwrap().map(|x| x.unwrap().path()).collect(); e.sort(); for p in e { if p.is_dir() { walk(&p, v) } else if p.extension().map_or(false, |x| x == "rs") { v.push(p) } } }
    let srcp = std::path::Path::new(&src);
    walk(srcp, &mut files);
    for f in &files { if let Ok(x) = parse_file(&std::fs::read_to_string(f).unwrap()) { collect_aliases(&x.items); } }
    for f in &files { let rel = format!("src/{}", f.strip_prefix(srcp).unwrap().display()); collect_file(f, &rel, &mut it); }

    // contracts
    let mut contracts: BTreeMap<String, Contract> = BTreeMap::new();
    let mut cfiles: Vec<_> = std::fs::read_dir(&cdir).unwrap().map(|x| x.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "vc")).collect();
    cfiles.sort();
    let mut global_errors = it.errors.clone();
    for f in &cfiles { for c in contract::parse(&std::fs::read_to_string(f).unwrap(), &mut global_errors) {
        if c.key.starts_with("Field::") {
            for m in ["ExportsFieldF", "ImportsFieldF"] {
                let short = if m == "ExportsFieldF" { "exports" } else { "imports" };
                contracts.insert(c.key.replace("Field::", &format!("{m}::")), c.subst("$F", short));
            }
        } else { contracts.insert(c.key.clone(), c); }
    } }

    // helpers: functions without contract
    let mut helpers: HashMap<String, Helper> = HashMap::new();
    for (k, f) in &it.funcs {
        if contracts.contains_key(k) || k.ends_with("::default") && f.src == "derive(Default)" { continue; }
        let mut inputs = vec![];
        let mut has_self = false;
        for i in &f.sig.inputs { match i { FnArg::Receiver(r) => { has_self = true; let t: Type = if r.reference.is_some() { if r.mutability.is_some() { parse_quote!(&mut Self) } else { parse_quote!(&Self) } } else { parse_quote!(Self) }; inputs.push((parse_quote!(slf), t)); } FnArg::Typed(t) => inputs.push(((*t.pat).clone(), (*t.ty).clone())) } }
        let gf: Vec<String> = f.sig.generics.type_params().filter(|p| p.bounds.to_token_stream().to_string().contains("Fn")).map(|p| p.ident.to_string()).collect();
        let mut fx = TyFix { generic_paths: f.sig.generics.type_params().filter(|p| p.bounds.to_token_stream().to_string().contains("AsRef")).map(|p| p.ident.to_string()).collect() };
        for (_, t) in inputs.iter_mut() { fx.visit_type_mut(t); }
        helpers.insert(k.clone(), Helper { inputs, has_self, block: f.block.clone(), file: f.file.clone(), generics_fn: gf });
    }

    let prelude = std::fs::read_to_string(format!("{cdir}/prelude.rs")).unwrap();
    let specs: String = { let mut v: Vec<_> = std::fs::read_dir(&cdir).unwrap().map(|x| x.unwrap().path()).filter(|p| p.file_name().map_or(false, |n| n.to_string_lossy().starts_with("spec_"))).collect(); v.sort(); v.iter().map(|p| std::fs::read_to_string(p).unwrap()).collect::<Vec<_>>().join("\n") };
    let mut text = String::new();
    text.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unreachable_code, unused_assignments, unreachable_patterns, path_statements, redundant_semicolons, unused_attributes)]\nuse vstd::prelude::*;\nuse std::sync::Arc;\nuse std::cmp::Ordering;\nverus! {\npub mod pre {\nuse vstd::prelude::*;\nuse std::sync::Arc;\nuse std::cmp::Ordering;\n");
    text.push_str(&prelude);
    let rt = if a.iter().any(|x| x == "--run") { "pub use ::hx::rt as vx_rt;\n".to_string() } else { format!("#[verifier::external] pub mod vx_rt {{ {} }}\n", std::fs::read_to_string(format!("{cdir}/rt_stub.rs")).unwrap()) };
    text.push_str("\n} // mod pre\n");
    text.push_str(&rt);
    text.push_str("use pre::*;\nbroadcast use {pre::ax_im_entries, pre::ax_im_dom, pre::ax_parent, pre::ax_p_eq, pre::ax_comps_root, pre::ax_comps_empty, pre::ax_comps_slash, pre::bl_push_name, pre::bl_push_root, pre::bl_pop, sp::lem::bl_cidx, sp::lem::bl_bnd, sp::lem::bl_end, sp::lem::bl_zero, sp::lem::bl_sub, sp::lem::bl_first, sp::lem::bl_prefix, sp::lem::bl_suffix, sp::lem::bl_all, sp::lem::bl_filter, sp::rel::bl_res, sp::rel::bl_dir, sp::rel::bl_mods, sp::rel::bl_imp, sp::rel::ax_res, sp::rel::ax_dir, sp::rel::ax_mods, sp::rel::ax_imp, sp::bl_br_fresh, sp::bl_inside, pre::ax_json_text, pre::lem_deref_skip, pre::lem_deref_take, pre::lem_deref_empty};\n");
    text.push_str("\n// ---- types extracted from the source ----\n/// the two implementations of trait Field\npub struct ExportsFieldF {}\npub struct ImportsFieldF {}\n");
    for (n, t) in &it.types { if ["DebugReadMap"].contains(&n.as_str()) { continue; } if !t.contains("DashMap <") && !["Resolver", "CacheFile", "ResolverCache"].contains(&n.as_str()) { text.push_str("#[verifier::external_derive]\n#[derive(Clone)]\n"); } else { } text.push_str(t); text.push('\n'); if t.contains("pub enum") && !t.contains('(') && !t.contains("{ }") { text.push_str(&format!("#[verifier::external] impl PartialEq for {n} {{ fn eq(&self, o: &Self) -> bool {{ std::mem::discriminant(self) == std::mem::discriminant(o) }} }}\n")); } }
    for (n, v) in &it.arrays {
        // membership and indexing of a static table of strings
        let dis: Vec<String> = v.iter().map(|s| { let cs: Vec<char> = s.chars().collect(); let mut c = vec![format!("s.len() == {}", cs.len())]; for (i, ch) in cs.iter().enumerate() { c.push(format!("s[{i}] == {ch:?}")); } format!("({})", c.join(" && ")) }).collect();
        text.push_str(&format!("pub open spec fn tab_{n}(s: Seq<char>) -> bool {{ {} }}\npub uninterp spec fn the_{n}() -> StrTable;\n", if dis.is_empty() { "false".to_string() } else { dis.join("\n || ") }));
        text.push_str(&format!("#[verifier::external_body] pub fn static_{n}() -> (r: StrTable) ensures r == the_{n}() {{ StrTable {{ v: &[{}] }} }}\n", v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ")));
        text.push_str(&format!("pub axiom fn ax_{n}() ensures the_{n}().n() == {}, forall|s: Seq<char>| #[trigger] the_{n}().mem(s) <==> tab_{n}(s), forall|i: int| 0 <= i < the_{n}().n() ==> the_{n}().mem(#[trigger] the_{n}().ent(i)), forall|s: Seq<char>| #[trigger] the_{n}().mem(s) ==> exists|i: int| 0 <= i < the_{n}().n() && #[trigger] the_{n}().ent(i) == s;\n", v.len()));
    }
    { let all: Vec<String> = it.arrays.keys().map(|n| format!("ax_{n}();")).collect(); text.push_str(&format!("pub proof fn ax_tables() ensures {} {{ {} }}\n", { let e: Vec<String> = it.arrays.iter().map(|(n, v)| format!("the_{n}().n() == {}, forall|s: Seq<char>| #[trigger] the_{n}().mem(s) <==> tab_{n}(s), forall|i: int| 0 <= i < the_{n}().n() ==> the_{n}().mem(#[trigger] the_{n}().ent(i)), forall|s: Seq<char>| #[trigger] the_{n}().mem(s) ==> exists|i: int| 0 <= i < the_{n}().n() && #[trigger] the_{n}().ent(i) == s", v.len())).collect(); if e.is_empty() { "true".into() } else { e.join(", ") } }, all.join(" "))); }
    for (n, t) in &it.pmas {
        text.push_str(&format!("#[verifier::external_body] pub fn static_{n}() -> (r: Pma) ensures r.tab() == the_{t}() {{ Pma {{ t: static_{t}() }} }}\n"));
    }
    text.push_str("\n// ---- specifications ----\n");
    text.push_str("pub mod sp {\nuse super::*;\nbroadcast use {pre::ax_im_entries, pre::ax_im_dom, pre::ax_parent, pre::ax_p_eq, pre::ax_comps_root, pre::ax_comps_empty, pre::ax_comps_slash, pre::lem_deref_skip, pre::lem_deref_take, pre::lem_deref_empty};\n");
    text.push_str(&specs);
    text.push_str("\n} // mod sp\nuse sp::*;\n");
    text.push_str("\n// ---- functions extracted from the source, with their contracts ----\n");

    let mut report = vec![];
    let mut missing = vec![];
    for k in contracts.keys() { if !it.funcs.contains_key(k) { missing.push(k.clone()); } }
    let mut order: Vec<String> = it.order.iter().filter(|k| contracts.contains_key(*k)).cloned().collect();
    order.dedup();
    for k in &order {
        let f = it.funcs[k].clone();
        let c = &contracts[k];
        let mut errs: Vec<String> = vec![];
        let mut cx = Ctx {
            table: &table, file: f.file.clone(), strs: BTreeSet::new(), nloops: 0, nclosures: 0,
            loops: HashMap::new(), loop_hints: HashMap::new(), closures: HashMap::new(), call_hints: HashMap::new(), ghost_args: HashMap::new(),
            helpers: &helpers, errors: vec![], lifted: vec![], fname: k.clone(), lift_contracts: HashMap::new(), depth: 0, skeleton: vec![],
            self_ty: f.self_ty.clone(), statics: &it.statics, str_consts: &it.str_consts, tmp: 0, locals: HashMap::new(),
        };
        for (i, l) in &c.loops {
            let mut t = TokenStream::new();
            if !l.inv.is_empty() {
                t.extend(quote!(invariant));
                for x in &l.inv { let x = toks(x, &mut errs); t.extend(quote!(#x,)); }
            }
            if !l.ens.is_empty() { t.extend(quote!(ensures)); for x in &l.ens { let x = toks(x, &mut errs); t.extend(quote!(#x,)); } }
            if let Some(d) = &l.dec { let d = toks(d, &mut errs); t.extend(quote!(decreases #d,)); }
            cx.loops.insert(*i, t);
        }
        for (place, h) in &c.hints {
            if let Some(r) = place.strip_prefix("loop") {
                if let Some((n, w)) = r.split_once('.') { if let Ok(n) = n.parse::<usize>() { let h = toks(h, &mut errs); let e = cx.loop_hints.entry((n, w.to_string())).or_default(); e.extend(quote!(vx_hint!{ #h })); } }
            } else if let Some(m) = place.strip_prefix("call.") { let h = toks(h, &mut errs); cx.call_hints.entry(m.to_string()).or_default().push(quote!(vx_hint!{ #h })); }
        }
        for (i, (sig, cl)) in &c.closures { let s = toks(sig, &mut errs); let cl = toks(cl, &mut errs); cx.closures.insert(*i, (s, cl)); }
        for (i, l) in &c.lifts { let l = toks(l, &mut errs); cx.lift_contracts.insert(*i, l); }
        for (m, g) in &c.ghosts { let g = toks(g, &mut errs); cx.ghost_args.entry(m.clone()).or_default().push(quote!(vx_hint!{ #g })); }

        // signature
        let gp: Vec<String> = f.sig.generics.type_params().filter(|p| p.bounds.to_token_stream().to_string().contains("AsRef")).map(|p| p.ident.to_string()).collect();
        let mut fx = TyFix { generic_paths: gp.clone() };
        let mut params = vec![];
        let mut renames = vec![];
        let mut pi = 0;
        for i in &f.sig.inputs {
            match i {
                FnArg::Receiver(r) => { cx.locals.insert("self".into(), "&Self".into()); params.push(print(r.to_token_stream())); pi += 1; }
                FnArg::Typed(t) => {
                    let mut ty = (*t.ty).clone();
                    fx.visit_type_mut(&mut ty);
                    let (src_name, m) = match &*t.pat { Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()), _ => { errs.push("parameter pattern".into()); ("p".into(), false) } };
                    let want = c.params.get(pi).cloned().unwrap_or_else(|| src_name.trim_start_matches('_').to_string());
                    if want != src_name || m { renames.push(if m { format!("let mut {src_name} = {want};") } else { format!("let {src_name} = {want};") }); }
                    cx.locals.insert(src_name, print(ty.to_token_stream()));
                    params.push(format!("{want}: {}", print(ty.to_token_stream())));
                    pi += 1;
                }
            }
        }
        if !c.params.is_empty() && c.params.len() != pi { errs.push(format!("{} parameters, the contract names {}", pi, c.params.len())); }
        let ret = match &f.sig.output { ReturnType::Default => "()".to_string(), ReturnType::Type(_, t) => { let mut t = (**t).clone(); fx.visit_type_mut(&mut t); print(t.to_token_stream()) } };
        let mut block = f.block.clone();
        { let mut w = Words { bind: true, ..Default::default() }; w.visit_block_mut(&mut block); w.bind = false; if !w.bound.is_empty() { w.visit_block_mut(&mut block); } }
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cx.visit_block_mut(&mut block))).is_err() { errs.push("translation".into()); }
        errs.extend(cx.errors.clone());
        for (place, h) in &c.hints {
            if place == "end" {
                let h = toks(h, &mut errs);
                let n = block.stmts.len();
                let at = if matches!(block.stmts.last(), Some(Stmt::Expr(_, None))) { n - 1 } else { n };
                block.stmts.insert(at, parse_quote!(vx_hint!{ #h }));
            }
        }
        let want_loops = c.nloops.unwrap_or(c.loops.keys().map(|x| x + 1).max().unwrap_or(0));
        if cx.nloops != want_loops { errs.push(format!("{} loops, the contract has invariants for {}", cx.nloops, want_loops)); }
        let is_ext = external.contains(k) || !errs.is_empty() || c.trusted;

        // emission
        let start = text.lines().count() + 1;
        let mut clauses = vec![];
        let gens: Vec<String> = f.sig.generics.params.iter().filter(|p| match p { GenericParam::Type(t) => !gp.contains(&t.ident.to_string()), _ => true }).map(|p| print(p.to_token_stream())).collect();
        let gens = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
        if !f.impl_head.is_empty() { text.push_str(&format!("{} {{\n", f.impl_head)); }
        if is_ext { text.push_str("#[verifier::external_body]\n"); }
        for at in &c.attrs { text.push_str(at); text.push('\n'); }
        text.push_str("#[verifier::spinoff_prover] #[verifier::loop_isolation(false)]\n");
        text.push_str(&format!("pub fn {}{}({}) -> ({}: {})\n", f.sig.ident, gens, params.join(", "), c.ret, ret));
        let emit = |kind: &str, list: &Vec<(Vec<String>, String)>, text: &mut String, clauses: &mut Vec<serde_json::Value>| {
            if list.is_empty() { return; }
            text.push_str(kind); text.push('\n');
            for (tags, x) in list { let l0 = text.lines().count() + 1; text.push_str(x); text.push_str(",\n"); let l1 = text.lines().count(); clauses.push(json!({"kind": kind, "tags": tags, "start": l0, "end": l1, "text": x})); }
        };
        emit("requires", &c.requires, &mut text, &mut clauses);
        emit("ensures", &c.ensures, &mut text, &mut clauses);
        if let Some(d) = &c.dec { let l0 = text.lines().count() + 1; text.push_str(&format!("decreases {d},\n")); clauses.push(json!({"kind": "decreases", "tags": ["C26"], "start": l0, "end": l0, "text": d})); }
        text.push_str("{\n");
        let body_start = text.lines().count() + 1;
        if is_ext { text.push_str("unimplemented!()\n}\n"); }
        else {
            text.push_str("proof { reveal_tag(); }\n");
            for r in &renames { text.push_str(r); text.push('\n'); }
            if !cx.strs.is_empty() {
                text.push_str("proof {\n");
                for s in &cx.strs { text.push_str(&format!("reveal_strlit({s:?}); assert({s:?}@ =~= seq![{}]);\n", s.chars().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(", "))); }
                text.push_str("}\n");
            }
            if a.iter().any(|x| x == "--vacuity") { text.push_str("proof { assert(false); }\n"); }
            for (p, h) in &c.hints { if p == "start" { text.push_str(h); text.push('\n'); } }
            let st: TokenStream = { let s = &block.stmts; quote!(#(#s)*) };
            text.push_str(&print(st));
            text.push_str("\n}\n");
        }
        if !f.impl_head.is_empty() { text.push_str("}\n"); }
        for (_, l) in &cx.lifted { if !is_ext { text.push_str(&print(l.clone())); text.push('\n'); } }
        let end = text.lines().count();
        report.push(json!({"key": k, "file": f.file, "src_start": f.line, "src_end": f.line_end, "start": start, "body": body_start, "end": end, "clauses": clauses, "props": c.props, "looptags": c.looptags.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(), "external": is_ext, "trusted": c.trusted, "trusted_why": c.trusted_why, "errors": errs, "skeleton": cx.skeleton, "strs": cx.strs}));
    }
    text.push_str("\n} // verus!\n");
    if a.iter().any(|x| x == "--run") { text.push_str(&xs_module(&prelude, &std::fs::read_to_string(format!("{cdir}/xs_core.rs")).unwrap())); text.push_str(&std::fs::read_to_string(format!("{cdir}/run_glue.rs")).unwrap()); } else { text.push_str("fn main() {}\n"); }
    std::fs::write(&out, &text).unwrap();
    let uncontracted: Vec<String> = it.order.iter().filter(|k| !contracts.contains_key(*k)).cloned().collect();
    std::fs::write(&map, serde_json::to_string_pretty(&json!({"functions": report, "missing": missing, "errors": global_errors, "without_contract": uncontracted})).unwrap()).unwrap();
}

/// the specification functions that the assumed contracts of strings and paths are written with, as executable functions
const XS_LIST: &[&str] = &["cw", "blen", "is_prefix", "is_suffix", "occurs_at", "first_of", "split_c", "replace_c", "str_lt", "str_ord", "p_join", "p_strip", "p_base", "p_parent", "seg_comp", "segs_comps", "root_comp", "p_comps", "p_eq"];
fn xs_module(prelude: &str, core: &str) -> String {
    let mut out = format!("pub mod xs {{\n{core}\n");
    for n in XS_LIST {
        let at = prelude.find(&format!("spec fn {n}(")).unwrap_or_else(|| panic!("no specification function {n}"));
        let rest = &prelude[at + 5..];
        let open = rest.find('{').unwrap();
        let mut depth = 0;
        let mut end = open;
        for (i, c) in rest[open..].char_indices() { if c == '{' { depth += 1; } if c == '}' { depth -= 1; if depth == 0 { end = open + i + 1; break; } } }
        let head = rest[..open].split("decreases").next().unwrap();
        out.push_str(&format!("pub {head} {}\n", rest[open..end].replace("=~=", "==")));
    }
    out.push_str("}\n");
    out
}
