//! Type table: what rustc says about every expression of the unmodified source.
//! Parsed from `cargo +nightly rustc -- -Zunpretty=thir-tree`.
use std::collections::HashMap;

#[derive(Clone, Debug, Default)]
pub struct Info {
    /// type before adjustments
    pub ty: String,
    /// resolved callee, if the expression is a call or a method call
    pub callee: Option<String>,
    pub callee_args: String,
}
pub type Key = (String, usize, usize, usize, usize);
#[derive(Default)]
pub struct Table {
    pub m: HashMap<Key, Vec<Info>>,
}

fn norm_def(s: &str) -> String {
    // DefId(2:4207 ~ core[a802]::default::Default::default)  ->  core::default::Default::default
    let s = match s.find("~ ") { Some(i) => &s[i + 2..], None => s };
    let mut out = String::new();
    let mut skip = false;
    for c in s.chars() {
        match c {
            '[' => skip = true,
            ']' => skip = false,
            c if !skip => out.push(c),
            _ => {}
        }
    }
    out
}
pub fn parse_span(s: &str) -> Option<Key> {
    // src/cache.rs:7:10: 7:17 (#14)
    let s = s.trim();
    let s = s.split(" (#").next()?;
    let (a, b) = s.split_once(": ")?;
    let mut it = a.rsplitn(3, ':');
    let c1 = it.next()?.parse().ok()?;
    let l1 = it.next()?.parse().ok()?;
    let f = it.next()?.to_string();
    let (l2, c2) = b.split_once(':')?;
    Some((f, l1, c1, l2.parse().ok()?, c2.parse().ok()?))
}

struct Fr { indent: usize, ty: String, span: Option<Key>, callee: Option<(String, String)>, in_kind: bool, scope: bool, inner: Option<Info> }
impl Table {
    pub fn get(&self, k: &Key) -> Option<&Info> {
        let v: Vec<&Info> = self.m.get(k)?.iter().filter(|i| !i.ty.starts_with("FnDef(")).collect();
        // the head of a `for` loop: its desugaring has the same span
        let is_into = |i: &&Info| i.callee.as_deref() == Some("core::iter::traits::collect::IntoIterator::into_iter");
        if let Some(n) = v.iter().position(|i| is_into(i)) { if n > 0 { return Some(v[n - 1]); } else { return Some(v[0]); } }
        // an argument of a formatting macro is borrowed under its own span
        if let Some(l) = v.last() { if l.callee.is_none() { if let Some(b) = l.ty.strip_prefix("&'{erased} ") { if let Some(f) = v.iter().find(|i| i.ty == b && i.callee.is_some()) { return Some(f); } } } }
        v.last().copied()
    }
    pub fn parse(text: &str) -> Table {
        let mut t = Table::default();
        let mut st: Vec<Fr> = vec![];
        for line in text.lines() {
            let tr = line.trim_start();
            let ind = line.len() - tr.len();
            while let Some(f) = st.last() {
                if ind < f.indent || (ind == f.indent && tr.starts_with('}')) {
                    let f = st.pop().unwrap();
                    if f.scope {
                        if let (Some(sp), Some(i)) = (f.span, f.inner) { t.m.entry(sp).or_default().push(i); }
                    } else if let Some(p) = st.last_mut() {
                        let mine = Info { ty: f.ty, callee: f.callee.as_ref().map(|c| c.0.clone()), callee_args: f.callee.map(|c| c.1).unwrap_or_default() };
                        // adjustments wrap the expression proper: the deepest one with the span of the scope counts
                        if p.scope {
                            if f.inner.is_some() { p.inner = f.inner; }
                            else { p.inner = Some(mine); }
                        } else if f.span == p.span || true {
                            // inside an adjustment chain: pass the candidate outwards if it has the span of the scope
                            let scope_span = st.iter().rev().find(|x| x.scope).and_then(|x| x.span.clone());
                            let p = st.last_mut().unwrap();
                            if f.inner.is_some() { if p.inner.is_none() { p.inner = f.inner; } }
                            else if f.span == scope_span && p.inner.is_none() { p.inner = Some(mine); }
                        }
                    }
                    if ind == f.indent { break; }
                } else { break; }
            }
            if tr == "Expr {" {
                st.push(Fr { indent: ind, ty: String::new(), span: None, callee: None, in_kind: false, scope: false, inner: None });
                continue;
            }
            if let Some(f) = st.last_mut() {
                if ind == f.indent + 4 {
                    if let Some(r) = tr.strip_prefix("ty: ") { f.ty = r.to_string(); }
                    else if let Some(r) = tr.strip_prefix("span: ") { f.span = parse_span(r); }
                    else if tr.starts_with("kind:") { f.in_kind = true; }
                } else if f.in_kind && ind == f.indent + 8 && tr == "Scope {" {
                    f.scope = true;
                } else if f.in_kind && ind == f.indent + 12 {
                    if let Some(r) = tr.strip_prefix("ty: FnDef(") {
                        if f.callee.is_none() {
                            let end = r.find(')').unwrap_or(r.len());
                            f.callee = Some((norm_def(&r[..end]).trim_start_matches("DefId(").to_string(), r[end..].to_string()));
                        }
                    }
                }
            }
        }
        t
    }
}
