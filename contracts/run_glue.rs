// ---- entry points for executing the extracted text (not part of the verified file) ----
struct VxR(Resolver);
fn vx_options(o: &::hx::model::Opts, shared: &Arc<ResolverCache>) -> ResolverOptions {
    ResolverOptions {
        extensions: o.ext.clone(), enforce_extension: o.enforce,
        alias: o.alias.iter().map(|(k, v)| (k.clone(), match v { Some(t) => AliasMap::Target(t.clone()), None => AliasMap::Ignored })).collect(),
        prefer_relative: o.prefer, external_cache: if o.shared { Some(shared.clone()) } else { None }, symlinks: o.symlinks,
        description_file: o.desc.clone(), main_files: o.main_files.clone(), main_fields: o.main_fields.clone(), browser_field: o.browser,
        condition_names: HashSet::from_iter(VIter { v: o.conds.clone() }), tsconfig: o.tsconfig.as_ref().map(|t| path_from(t)),
    }
}
impl ::hx::ext::Ext for VxR {
    fn resolve(&self, base: &str, req: &str) -> String {
        match self.0.resolve(&path_from(base), req) {
            Ok(ResolveResult::Info(i)) => ::hx::ext::file_text(i.path.as_pathstr(), &i.request.target, &i.request.query, &i.request.fragment),
            Ok(ResolveResult::Ignored) => "ignored".into(),
            Err(e) => format!("error {e}"),
        }
    }
    fn side(&self, path: &str) -> String {
        match self.0.load_side_effects(&path_from(path)) {
            Ok(None) => "none".into(),
            Ok(Some((p, s))) => match s { None => ::hx::ext::side_text(p.as_pathstr(), None, None), Some(SideEffects::Bool(b)) => ::hx::ext::side_text(p.as_pathstr(), Some(b), None), Some(SideEffects::Array(a)) => ::hx::ext::side_text(p.as_pathstr(), None, Some(a)) },
            Err(e) => format!("error {e}"),
        }
    }
}
fn vx_make(o: &[::hx::model::Opts]) -> Vec<Box<dyn ::hx::ext::Ext>> {
    let shared = Arc::new(ResolverCache::default());
    o.iter().map(|o| Box::new(VxR(Resolver::new(vx_options(o, &shared)))) as Box<dyn ::hx::ext::Ext>).collect()
}

// ---- the assumed contracts of strings and paths against the bodies they are assumed of (std), on every text up to a length ----
fn all_texts(alpha: &[&str], n: usize) -> Vec<String> { let mut out = vec![String::new()]; let mut last = out.clone(); for _ in 0..n { last = last.iter().flat_map(|s| alpha.iter().map(move |a| format!("{s}{a}"))).collect(); out.extend(last.clone()); } out }
struct Tally { n: u64, bad: Vec<String> }
impl Tally { fn c(&mut self, what: &str, ok: bool, a: &str, b: &str) { self.n += 1; if !ok && self.bad.len() < 20 { self.bad.push(format!("{what}({a:?}, {b:?})")); } } }
fn std_strings(t: &mut Tally) {
    use xs::{of, Seq};
    let seqs = |v: Vec<&str>| Seq::from(v.into_iter().map(of).collect::<Vec<_>>());
    let one = all_texts(&["/", ".", "a", "\u{e9}", "\u{65e5}", "\u{1f600}"], 5);
    for s in &one {
        let q = of(s);
        let n = q.len();
        t.c("s_len", s_len(s) as i64 == xs::blen(q) && n <= s_len(s) as i64 && s_len(s) as i64 <= 4 * n, s, "");
        t.c("s_is_empty", s_is_empty(s) == (n == 0), s, "");
        t.c("s_chars", s_chars(s).v == q.p, s, "");
        t.c("s_char_indices", s_char_indices(s).v == (0..n).map(|i| (xs::blen(q.take(i)) as usize, q[i])).collect::<Vec<_>>(), s, "");
        t.c("s_to_string", of(&s_to_string(s)) == q && of(&s.to_disp()) == q, s, "");
        for c in ['/', '.', 'a', '\u{e9}', '\u{65e5}', '*'] {
            let cs = c.to_string();
            let k = xs::first_of(q, c);
            t.c("s_starts_with_c", s_starts_with_c(s, c) == (n > 0 && q[0] == c), s, &cs);
            t.c("s_ends_with_c", s_ends_with_c(s, c) == (n > 0 && q.last() == c), s, &cs);
            t.c("s_contains_c", s_contains_c(s, c) == q.contains(c), s, &cs);
            t.c("s_find_c", s_find_c(s, c) == (if k < n { Some(xs::blen(q.take(k)) as usize) } else { None }) && (k >= n || xs::blen(q.take(k + 1)) == xs::blen(q.take(k)) + xs::cw(c)), s, &cs);
            t.c("s_strip_prefix_c", s_strip_prefix_c(s, c).map(of) == (if n > 0 && q[0] == c { Some(q.skip(1)) } else { None }), s, &cs);
            t.c("s_strip_suffix_c", s_strip_suffix_c(s, c).map(of) == (if n > 0 && q.last() == c { Some(q.drop_last()) } else { None }), s, &cs);
            t.c("s_split_once_c", s_split_once_c(s, c).map(|x| (of(x.0), of(x.1))) == (if k < n { Some((q.take(k), q.skip(k + 1))) } else { None }), s, &cs);
            t.c("s_split_c", seqs(s_split_c(s, c).v) == xs::split_c(q, c), s, &cs);
            for r in ["", "b", "a/\u{e9}"] { t.c("s_replace_c", of(&s_replace_c(s, c, r)) == xs::replace_c(q, c, of(r)), s, &cs); }
            t.c("string_push", { let mut x = s.clone(); string_push(&mut x, c); of(&x) == q.push(c) }, s, &cs);
        }
        for i in 0..=n { for j in i..=n { t.c("s_slice", of(s_slice(s, xs::blen(q.take(i)) as usize, xs::blen(q.take(j)) as usize)) == q.subrange(i, j), s, ""); } }
    }
    let a = all_texts(&["/", ".", "a", "\u{e9}"], 4);
    let b = all_texts(&["/", ".", "a", "\u{e9}"], 2);
    for x in &a { for y in &b {
        let (p, q) = (of(x), of(y));
        let occ = (0..=p.len()).any(|k| xs::occurs_at(q, p, k));
        t.c("s_starts_with_s", s_starts_with_s(x, y) == xs::is_prefix(q, p), x, y);
        t.c("s_ends_with_s", s_ends_with_s(x, y) == xs::is_suffix(q, p), x, y);
        t.c("s_contains_s", s_contains_s(x, y) == occ, x, y);
        t.c("s_strip_prefix_s", s_strip_prefix_s(x, y).map(of) == (if xs::is_prefix(q, p) { Some(p.skip(q.len())) } else { None }), x, y);
        t.c("s_strip_suffix_s", s_strip_suffix_s(x, y).map(of) == (if xs::is_suffix(q, p) { Some(p.take(p.len() - q.len())) } else { None }), x, y);
        if xs::is_prefix(q, p) { t.c("s_replacen_s", of(&s_replacen_s(x, y, "bb", 1)) == of("bb") + p.skip(q.len()), x, y); }
        t.c("s_cat", of(&s_cat(x.clone(), y.clone())) == p + q && { let mut z = x.clone(); string_push_str(&mut z, y); of(&z) == p + q }, x, y);
        for (x, y) in [(x, y), (y, x)] { t.c("s_cmp", s_cmp(x, y) == xs::str_ord(of(x), of(y)), x, y); t.c("s_eq", s_eq(x, y) == (of(x) == of(y)), x, y); }
    } }
}
fn std_paths(t: &mut Tally) {
    use xs::{of, CompV, Seq};
    let comps = |p: &PathBuf| Seq::from(path_components(p).v.into_iter().map(|c| match c { Component::RootDir => CompV::Root, Component::CurDir => CompV::Cur, Component::ParentDir => CompV::Up, Component::Normal(n) => CompV::Name(of(n.vx_txt())), Component::Prefix(_) => CompV::Name(of("?")) }).collect::<Vec<_>>());
    for s in all_texts(&["/", ".", "a"], 8) {
        let p = path_from(&s);
        t.c("path_components", comps(&p) == xs::p_comps(of(&s)), &s, "");
        t.c("path_parent", path_parent(&p).map(|x| of(x.as_pathstr())) == xs::p_parent(of(&s)), &s, "");
        t.c("path_pop", { let mut q = path_from(&s); let r = path_pop(&mut q); r == xs::p_parent(of(&s)).is_some() && of(q.as_pathstr()) == xs::p_parent(of(&s)).unwrap_or(of(&s)) }, &s, "");
        t.c("path_display", path_display(&p).s == s, &s, "");
    }
    let a = all_texts(&["/", ".", "a", "b"], 4);
    for x in &a { for y in &a {
        let (p, q) = (path_from(x), path_from(y));
        t.c("path_join", of(path_join(&p, y).as_pathstr()) == xs::p_join(of(x), of(y)), x, y);
        t.c("path_push", { let mut z = path_from(x); path_push(&mut z, y.as_str()); of(z.as_pathstr()) == xs::p_join(of(x), of(y)) }, x, y);
        t.c("path_eq", path_eq(&p, &q) == xs::p_eq(of(x), of(y)), x, y);
    } }
}
fn std_check(out: &str) {
    let mut t = Tally { n: 0, bad: vec![] };
    std_strings(&mut t);
    std_paths(&mut t);
    std::fs::write(out, ::hx::rt::report(t.n, &t.bad)).unwrap();
    println!("{} comparisons, {} differences {:?}", t.n, t.bad.len(), t.bad);
}
fn main() { let a: Vec<String> = std::env::args().collect(); if a[1] == "std" { std_check(&a[2]) } else { ::hx::ext::run_extracted(vx_make) } }
