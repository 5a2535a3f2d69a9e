//! Executable reference model of the properties (properties.jsonl): what a resolution has to return.
//! It shares no code with /repo; files are looked at with the same std primitives (is_file, is_dir,
//! canonicalize, read_to_string), JSON is parsed with the same libraries. It keeps no cache at all.
use serde_json::Value;
use std::cell::Cell;
use std::path::{Component, Path, PathBuf};

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub ext: Vec<String>,
    pub enforce: Option<bool>,
    pub alias: Vec<(String, Option<String>)>,
    pub prefer: bool,
    pub shared: bool,
    pub symlinks: bool,
    pub desc: Option<String>,
    pub main_files: Vec<String>,
    pub main_fields: Vec<String>,
    pub browser: bool,
    pub conds: Vec<String>,
    pub tsconfig: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// nothing found
    NotFound,
    /// the complete not-found message
    Message(String),
    /// some more specific reason
    Reason,
    /// the search space is infinite (alias or imports cycle): not specified
    Endless,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out { File { path: PathBuf, query: String, fragment: String }, Ignored, Fail(Fail) }

#[derive(Clone, Debug)]
pub struct Req { pub path: PathBuf, pub t: String, pub q: String, pub f: String }
/// a step either decides or passes the (possibly rewritten) request on
enum Step { Done(Out), Go(Req) }
use Step::*;

#[derive(Clone, Debug)]
pub struct Desc { pub dir: PathBuf, pub json: Value }

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Kind { Path, Internal, Bare }

pub fn kind(t: &str) -> Kind {
    let c: Vec<char> = t.chars().collect();
    let drive = c.len() >= 2 && c[0].is_ascii_alphabetic() && c[1] == ':' && (c.len() == 2 || c[2] == '/' || c[2] == '\\');
    if t.starts_with('#') { Kind::Internal }
    else if t.is_empty() || t == "." || t == ".." || t.starts_with("./") || t.starts_with("../") || t.starts_with('/') || drive { Kind::Path }
    else { Kind::Bare }
}

pub fn split(s: &str) -> (String, String, String) {
    let c: Vec<char> = s.chars().collect();
    let frag = (1..c.len()).find(|&i| c[i] == '#').unwrap_or(c.len());
    let query = (0..frag).find(|&i| c[i] == '?').unwrap_or(frag);
    (c[..query].iter().collect(), c[query..frag].iter().collect(), c[frag..].iter().collect())
}

pub fn lexical(p: &Path) -> PathBuf {
    let (mut root, mut names): (bool, Vec<&std::ffi::OsStr>) = (false, vec![]);
    for c in p.components() {
        match c { Component::RootDir => root = true, Component::ParentDir => { names.pop(); } Component::Normal(n) => names.push(n), _ => {} }
    }
    let mut s = std::ffi::OsString::new();
    if root { s.push("/"); }
    for (i, n) in names.iter().enumerate() { if i > 0 { s.push("/"); } s.push(n); }
    PathBuf::from(s)
}

// ---------------------------------------------------------------- exports / imports maps
fn check_value(v: &Value) -> Result<(), ()> {
    match v {
        Value::String(_) | Value::Null => Ok(()),
        Value::Array(a) => a.iter().try_for_each(|x| if x.is_array() { Err(()) } else { check_value(x) }),
        Value::Object(m) => m.values().try_for_each(check_value),
        _ => Err(()),
    }
}
/// key -> value, keys without the leading "./" resp. "#"
pub fn exports_keys(v: &Value) -> Result<Vec<(Option<String>, Value)>, ()> {
    check_value(v)?;
    if let Value::Object(m) = v {
        let dotted = m.keys().filter(|k| k.starts_with('.') || k.starts_with('/')).count();
        if dotted == 0 { return Ok(vec![(None, v.clone())]); }
        if dotted != m.len() { return Err(()); }
        let mut out = vec![];
        for (k, v) in m {
            if k.len() == 1 { out.push((None, v.clone())) }
            else if let Some(k) = k.strip_prefix("./") { out.push((Some(k.to_string()), v.clone())) }
            else { return Err(()); }
        }
        return Ok(out);
    }
    Ok(vec![(None, v.clone())])
}
pub fn imports_keys(v: &Value) -> Result<Vec<(Option<String>, Value)>, ()> {
    check_value(v)?;
    let m = v.as_object().ok_or(())?;
    let mut out = vec![];
    for (k, v) in m {
        if !k.starts_with('#') || k.len() == 1 || k.starts_with("#/") { return Err(()); }
        out.push((Some(k[1..].to_string()), v.clone()));
    }
    Ok(out)
}
enum How { Exact, Dir(String), Star(String) }
/// the best matching key
fn best(keys: &[(Option<String>, Value)], sub: &Option<String>) -> Option<(Value, How)> {
    let sub = match sub { None => return keys.iter().rev().find(|k| k.0.is_none()).map(|k| (k.1.clone(), How::Exact)), Some(s) => s };
    let is_key = |k: &str| !k.is_empty() && !k.ends_with('/') && !k.ends_with('*');
    if let Some(k) = keys.iter().rev().find(|k| k.0.as_ref().map_or(false, |k| is_key(k) && k == sub)) { return Some((k.1.clone(), How::Exact)); }
    let mut best: Option<(usize, bool, Value, How)> = None;
    for (k, v) in keys {
        let k = match k { Some(k) => k, None => continue };
        let (prefix, star) = if let Some(p) = k.strip_suffix('*') { (p, true) } else if k.is_empty() || k.ends_with('/') { (k.as_str(), false) } else { continue };
        if let Some(rest) = sub.strip_prefix(prefix) {
            let rank = (prefix.len(), star);
            if best.as_ref().map_or(true, |b| (b.0, b.1) < rank) {
                best = Some((rank.0, rank.1, v.clone(), if star { How::Star(rest.to_string()) } else { How::Dir(rest.to_string()) }));
            }
        }
    }
    best.map(|b| (b.2, b.3))
}
/// the condition that is taken, if any
fn select<'a>(m: &'a serde_json::Map<String, Value>, conds: &[String]) -> Result<Option<&'a Value>, ()> {
    for (i, (k, v)) in m.iter().enumerate() {
        if k == "default" && i + 1 != m.len() { return Err(()); }
        if k == "default" || conds.contains(k) {
            match v { Value::Object(inner) => if let Some(x) = select(inner, conds)? { return Ok(Some(x)); }, _ => return Ok(Some(v)) }
        }
    }
    Ok(None)
}
fn substitute(t: &str, how: &How, exports: bool) -> Result<String, ()> {
    if exports && (t.len() < 2 || t.starts_with('/') || (t.starts_with('.') && !t.starts_with("./"))) { return Err(()); }
    match how {
        How::Exact if !t.ends_with('/') => Ok(t.to_string()),
        How::Star(rest) if !t.ends_with('/') => Ok(t.split('*').collect::<Vec<_>>().join(rest)),
        How::Dir(rest) if t.ends_with('/') => Ok(format!("{t}{rest}")),
        _ => Err(()),
    }
}
fn targets(v: &Value, how: &How, conds: &[String], exports: bool) -> Result<Vec<String>, ()> {
    match v {
        Value::String(t) => Ok(vec![substitute(t, how, exports)?]),
        Value::Array(a) => { let mut out = vec![]; for x in a { out.extend(targets(x, how, conds, exports)?); } Ok(out) }
        Value::Object(m) => match select(m, conds)? { Some(v) => targets(v, how, conds, exports), None => Ok(vec![]) },
        _ => Ok(vec![]),
    }
}
pub fn exports_targets(v: &Value, sub: &str, conds: &[String]) -> Result<Vec<String>, ()> {
    let keys = exports_keys(v)?;
    let sub = if sub == "." { None } else { let s = sub.strip_prefix("./").ok_or(())?; if sub.ends_with('/') { return Err(()); } Some(s.to_string()) };
    match best(&keys, &sub) { Some((v, how)) => targets(&v, &how, conds, true), None => Ok(vec![]) }
}
pub fn imports_targets(v: &Value, req: &str, conds: &[String]) -> Result<Vec<String>, ()> {
    let keys = imports_keys(v)?;
    if req.len() < 2 || req.starts_with("#/") || req.ends_with('/') { return Err(()); }
    match best(&keys, &Some(req[1..].to_string())) { Some((v, how)) => targets(&v, &how, conds, false), None => Ok(vec![]) }
}
pub fn contained(t: &str) -> bool {
    if t.starts_with('/') { return false; }
    let mut depth = 0i64;
    for s in t.split('/') { match s { ".." => depth -= 1, "" | "." => {} _ => depth += 1 } if depth < 0 { return false; } }
    true
}

// ---------------------------------------------------------------- resolution
pub struct Model<'a> { pub o: &'a Opts, pub depth: Cell<usize>, pub steps: Cell<usize>, pub file_candidates: Cell<usize> }
const MODULES: &str = "node_modules";

fn at(r: &Req) -> PathBuf { if r.t.is_empty() || r.t == "." { r.path.clone() } else { r.path.join(&r.t) } }
fn with(r: &Req, path: PathBuf, t: &str) -> Req { Req { path, t: t.to_string(), q: r.q.clone(), f: r.f.clone() } }
fn ok(o: &Out) -> bool { !matches!(o, Out::Fail(_)) }
fn endless(o: &Out) -> bool { matches!(o, Out::Fail(Fail::Endless)) }
fn append(p: &Path, e: &str) -> PathBuf { PathBuf::from(format!("{}{}", p.display(), e)) }
fn fail<T>(f: Fail) -> Result<T, Fail> { Err(f) }

impl<'a> Model<'a> {
    pub fn new(o: &'a Opts) -> Self { Model { o, depth: Cell::new(0), steps: Cell::new(0), file_candidates: Cell::new(0) } }
    fn enforce(&self) -> bool { self.o.enforce.unwrap_or_else(|| self.o.ext.iter().any(|e| e.is_empty())) }

    pub fn resolve(&self, base: &Path, request: &str) -> Out {
        let (t, q, f) = split(request);
        let r = Req { path: base.to_path_buf(), t, q, f };
        let out = match &self.o.tsconfig { Some(ts) => self.with_tsconfig(&r, Path::new(ts)), None => self.lookup(&r) };
        match out {
            Out::File { path, query, fragment } => {
                let path = if self.o.symlinks { match std::fs::canonicalize(&path) { Ok(p) => p, Err(_) => return Out::Fail(Fail::Reason) } } else { lexical(&path) };
                Out::File { path, query, fragment }
            }
            o => o,
        }
    }

    /// one complete lookup; a failure to find anything is reported for this request
    fn lookup(&self, r: &Req) -> Out {
        self.steps.set(self.steps.get() + 1);
        if self.depth.get() > 40 || self.steps.get() > 3000 { return Out::Fail(Fail::Endless); }
        self.depth.set(self.depth.get() + 1);
        let out = self.lookup_(r);
        self.depth.set(self.depth.get() - 1);
        match out {
            Out::Fail(Fail::NotFound) => Out::Fail(Fail::Message(format!("Resolve '{}{}{}' failed in '{}'", r.t, r.q, r.f, r.path.display()))),
            o => o,
        }
    }
    fn lookup_(&self, r: &Req) -> Out {
        if !r.path.display().to_string().split('/').any(|s| s == MODULES) {
            for (from, to) in &self.o.alias {
                if let Some(rest) = r.t.strip_prefix(from.as_str()) {
                    match to {
                        None => return Out::Ignored,
                        Some(to) if r.t.starts_with(to.as_str()) => {}
                        Some(to) => { let o = self.lookup(&with(r, r.path.clone(), &format!("{to}{rest}"))); if ok(&o) || endless(&o) { return o; } }
                    }
                }
            }
        }
        if self.o.prefer && !r.t.starts_with("./") && !r.t.starts_with("../") {
            let o = self.lookup(&with(r, r.path.clone(), &format!("./{}", r.t)));
            if ok(&o) || endless(&o) { return o; }
        }
        let subject = if kind(&r.t) == Kind::Bare { r.path.join(MODULES).join(&r.t) } else { at(r) };
        let d = match self.governing(&subject) { Ok(d) => d, Err(f) => return Out::Fail(f) };
        let r = match self.imports(&d, r.clone(), 0) { Done(o) => return o, Go(r) => r };
        let r = match self.browser(&d, r) { Done(o) => return o, Go(r) => r };
        if kind(&r.t) == Kind::Path { self.file_or_dir(r) } else { self.modules(&r) }
    }

    fn file_or_dir(&self, r: Req) -> Out { match self.as_file(r) { Done(o) => o, Go(r) => self.as_dir(&r) } }

    fn as_file(&self, r: Req) -> Step {
        let p = at(&r);
        let mut c: Vec<PathBuf> = vec![];
        if !self.enforce() { c.push(p.clone()); }
        c.extend(self.o.ext.iter().map(|e| append(&p, e)));
        self.file_candidates.set(self.file_candidates.get() + c.len());
        match c.into_iter().find(|p| p.is_file()) {
            Some(path) => Done(Out::File { path, query: r.q, fragment: r.f }),
            None => Go(r),
        }
    }

    fn as_dir(&self, r: &Req) -> Out {
        self.steps.set(self.steps.get() + 1);
        if self.depth.get() > 40 || self.steps.get() > 3000 { return Out::Fail(Fail::Endless); }
        let dir = at(r);
        if !dir.is_dir() { return Out::Fail(Fail::NotFound); }
        let d = match self.governing(&dir) { Ok(d) => d, Err(f) => return Out::Fail(f) };
        if let Some(desc) = d.as_ref().filter(|d| d.dir == dir) {
            for field in &self.o.main_fields {
                let v = match desc.json.get(field).and_then(|v| v.as_str()) { Some(v) => v, None => continue };
                if v == "." || v == "./" { break; }
                let t = if v.starts_with("./") { v.to_string() } else { format!("./{v}") };
                self.depth.set(self.depth.get() + 1);
                let o = match self.browser(&d, with(r, dir.clone(), &t)) { Done(o) => o, Go(r) => self.file_or_dir(r) };
                self.depth.set(self.depth.get() - 1);
                if ok(&o) || endless(&o) { return o; }
            }
        }
        for name in &self.o.main_files {
            let o = match self.browser(&d, with(r, dir.clone(), &format!("./{name}"))) { Done(o) => Done(o), Go(r) => self.as_file(r) };
            if let Done(o) = o { if ok(&o) { return o; } }
        }
        Out::Fail(Fail::NotFound)
    }

    /// own name of a package: first segment, or first two after '@'
    fn package_name(t: &str) -> &str {
        let skip = if t.starts_with('@') { 1 } else { 0 };
        match t.match_indices('/').nth(skip) { Some((i, _)) => &t[..i], None => t }
    }

    fn modules(&self, r: &Req) -> Out {
        let mut dir = Some(r.path.as_path());
        while let Some(d) = dir {
            let o = self.level(d, r);
            match o { Out::Fail(Fail::NotFound) => {} o => return o }
            dir = d.parent();
        }
        Out::Fail(Fail::NotFound)
    }
    fn level(&self, base: &Path, r: &Req) -> Out {
        let root = base.join(MODULES);
        if !root.is_dir() { return Out::Fail(Fail::NotFound); }
        let here = with(r, root.clone(), &r.t);
        let package = root.join(Self::package_name(&r.t));
        let d = match self.governing(&root.join(&r.t)) { Ok(d) => d, Err(f) => return Out::Fail(f) };
        let pd = match self.governing(&package) { Ok(d) => d, Err(f) => return Out::Fail(f) };
        let own = |d: &Option<Desc>| d.as_ref().and_then(|d| d.json.get("name")).and_then(|n| n.as_str()).and_then(|n| r.t.strip_prefix(n)).map_or(false, |rest| rest.is_empty() || rest.starts_with('/'));
        if !package.is_dir() && !own(&d) {
            return match self.as_file(here) { Done(o) => o, Go(_) => Out::Fail(Fail::NotFound) };
        }
        let r = match self.exports(&pd, here, own(&pd)) { Done(o) => return o, Go(r) => r };
        let r = match self.imports(&d, r, 0) { Done(o) => return o, Go(r) => r };
        let r = if kind(&r.t) == Kind::Bare { let t = format!("./{}", r.t); with(&r, r.path.clone(), &t) } else { r };
        match self.browser(&d, r) { Done(o) => o, Go(r) => self.file_or_dir(r) }
    }

    fn exports(&self, d: &Option<Desc>, r: Req, own: bool) -> Step {
        let d = match d { Some(d) => d, None => return Go(r) };
        if kind(&r.t) != Kind::Bare { return Go(r); }
        if d.dir != r.path.join(Self::package_name(&r.t)) && !own { return Go(r); }
        let map = match d.json.get("exports").filter(|v| !v.is_null()) { Some(m) => m, None => return Go(r) };
        let skip = if r.t.starts_with('@') && r.t.contains('/') { 1 } else { 0 };
        let sub = match r.t.match_indices('/').nth(skip) {
            Some((i, _)) => format!(".{}", &r.t[i..]),
            None if r.path.join(&r.t).exists() || d.json.get("name").and_then(|n| n.as_str()) == Some(&r.t) => ".".to_string(),
            None => return Done(Out::Fail(Fail::NotFound)),
        };
        let sub = if r.q.is_empty() && r.f.is_empty() { sub } else { format!("{}{}{}", if sub == "." { "./" } else { &sub }, r.q, r.f) };
        let list = match exports_targets(map, &sub, &self.o.conds) { Ok(l) => l, Err(_) => return Done(Out::Fail(Fail::Reason)) };
        for item in list {
            let (t, q, f) = split(&item);
            let c = Req { path: d.dir.clone(), t, q, f };
            if at(&c).is_file() && contained(&c.t) { return Go(c); }
        }
        Done(Out::Fail(Fail::Reason))
    }

    fn imports(&self, d: &Option<Desc>, r: Req, n: usize) -> Step {
        if n > 20 { return Done(Out::Fail(Fail::Endless)); }
        let d0 = match d { Some(d) => d, None => return Go(r) };
        if kind(&r.t) != Kind::Internal { return Go(r); }
        let map = match d0.json.get("imports").filter(|v| !v.is_null()) { Some(m) => m, None => return Go(r) };
        let list = match imports_targets(map, &r.t, &self.o.conds) { Ok(l) => l, Err(_) => return Done(Out::Fail(Fail::Reason)) };
        let item = match list.first() { Some(i) => i, None => return Done(Out::Fail(Fail::Reason)) };
        let (t, q, f) = split(item);
        let c = Req { path: d0.dir.clone(), t, q, f };
        match kind(&c.t) {
            Kind::Bare => Go(c),
            Kind::Internal => self.imports(d, c, n + 1),
            Kind::Path => if at(&c).is_file() && contained(&c.t) { Go(c) } else { Done(Out::Fail(Fail::Reason)) },
        }
    }

    fn browser(&self, d: &Option<Desc>, r: Req) -> Step {
        let d = match d { Some(d) if self.o.browser => d, _ => return Go(r) };
        let entries: Vec<(&String, Option<&str>)> = match d.json.get("browser").and_then(|b| b.as_object()) {
            Some(m) => m.iter().filter_map(|(k, v)| match v { Value::Bool(false) => Some((k, None)), Value::String(s) => Some((k, Some(s.as_str()))), _ => None }).collect(),
            None => return Go(r),
        };
        for (k, v) in &entries {
            let hit = if kind(&r.t) == Kind::Bare { **k == r.t } else {
                let p = d.dir.join(k);
                p == at(&r) || self.o.ext.iter().any(|e| p == append(&at(&r), e))
            };
            if !hit { continue; }
            let mut v = *v;
            for _ in 0..entries.len() {
                match v.and_then(|t| entries.iter().find(|(k, _)| k.as_str() == t)) { Some((_, next)) => v = *next, None => break }
            }
            return match v { Some(t) => Go(with(&r, d.dir.clone(), t)), None => Done(Out::Ignored) };
        }
        Go(r)
    }

    /// the description file that governs a path
    pub fn governing(&self, path: &Path) -> Result<Option<Desc>, Fail> {
        let name = match &self.o.desc { Some(n) => n, None => return Ok(None) };
        let mut dir = path;
        while !dir.is_dir() { dir = match dir.parent() { Some(p) => p, None => return fail(Fail::NotFound) }; }
        let dir = match dir.ancestors().find(|d| d.join(name).is_file()) { Some(d) => d, None => return Ok(None) };
        let text = std::fs::read_to_string(dir.join(name)).map_err(|_| Fail::Reason)?;
        let json: Value = serde_json::from_str(&text).map_err(|_| Fail::Reason)?;
        if let Some(v) = json.get("exports").filter(|v| !v.is_null()) { exports_keys(v).map_err(|_| Fail::Reason)?; }
        if let Some(v) = json.get("imports").filter(|v| !v.is_null()) { imports_keys(v).map_err(|_| Fail::Reason)?; }
        match json.get("sideEffects") {
            None | Some(Value::Bool(_)) => {}
            Some(Value::Array(a)) if a.iter().all(|x| x.is_string()) => {}
            _ => return fail(Fail::Reason),
        }
        Ok(Some(Desc { dir: dir.components().collect(), json }))
    }
    pub fn side_effects(&self, path: &Path) -> Result<Option<(PathBuf, Option<Value>)>, Fail> {
        Ok(self.governing(path)?.map(|d| (d.dir.join(self.o.desc.as_ref().unwrap()), d.json.get("sideEffects").cloned())))
    }

    // ------------------------------------------------------------ tsconfig
    fn ts_value(&self, file: &Path, n: usize) -> Result<Value, Fail> {
        if n > 10 { return fail(Fail::Endless); }
        let text = std::fs::read_to_string(file).map_err(|_| Fail::Reason)?;
        let mut v: Value = jsonc_parser::parse_to_serde_value(&text).map_err(|_| Fail::Reason)?.ok_or(Fail::Reason)?;
        if let Some(s) = v.get("extends").and_then(|e| e.as_str()) {
            let (t, q, f) = split(s);
            match self.lookup(&Req { path: file.parent().unwrap().to_path_buf(), t, q, f }) {
                Out::File { path, .. } => { let base = self.ts_value(&path, n + 1)?; v = overlay(v, base); }
                Out::Ignored => return fail(Fail::Reason),
                Out::Fail(Fail::Endless) => return fail(Fail::Endless),
                Out::Fail(_) => {}
            }
        }
        Ok(v)
    }
    fn with_tsconfig(&self, r: &Req, file: &Path) -> Out {
        let v = match self.ts_value(file, 0) { Ok(v) => v, Err(f) => return Out::Fail(f) };
        let co = v.get("compilerOptions");
        let base_url = co.and_then(|c| c.get("baseUrl")).and_then(|b| b.as_str());
        let mut table: Vec<(String, Vec<String>)> = vec![];
        if let Some(p) = co.and_then(|c| c.get("paths")) {
            let m = match p.as_object() { Some(m) => m, None => return Out::Fail(Fail::Reason) };
            for (k, v) in m {
                let l: Option<Vec<String>> = v.as_array().and_then(|a| a.iter().map(|x| x.as_str().map(String::from)).collect());
                match l { Some(l) => table.push((k.clone(), l)), None => return Out::Fail(Fail::Reason) }
            }
        }
        if let Some(b) = base_url {
            let base = file.parent().unwrap().join(b);
            // without '*' first, then longer prefixes first, equal ones by their text
            table.sort_by(|a, b| match (a.0.find('*'), b.0.find('*')) {
                (None, Some(_)) => std::cmp::Ordering::Less, (Some(_), None) => std::cmp::Ordering::Greater,
                (Some(i), Some(j)) if i != j => j.cmp(&i), _ => a.0.cmp(&b.0) });
            for (pattern, paths) in &table {
                let m = if *pattern == r.t { "" } else {
                    let (a, b) = match pattern.split_once('*') { Some(x) => x, None => continue };
                    match r.t.strip_prefix(a).and_then(|x| x.strip_suffix(b)) { Some(m) if !m.is_empty() => m, _ => continue }
                };
                for p in paths {
                    let p = base.join(p).display().to_string().split('*').collect::<Vec<_>>().join(m);
                    let o = self.lookup(&with(r, PathBuf::from(p), ""));
                    if ok(&o) || endless(&o) { return o; }
                }
            }
        }
        self.lookup(r)
    }
}

/// `a`, with what is absent or null in it taken from `b`
pub fn overlay(a: Value, b: Value) -> Value {
    match (a, b) {
        (Value::Null, b) => b,
        (Value::Object(mut a), Value::Object(b)) => {
            for (k, bv) in b { let av = a.get(&k).cloned().unwrap_or(Value::Null); a.insert(k, overlay(av, bv)); }
            Value::Object(a)
        }
        (a, _) => a,
    }
}

/// module.builtinModules of Node.js 16
pub const BUILT_IN: &[&str] = &["_http_agent", "_http_client", "_http_common", "_http_incoming", "_http_outgoing", "_http_server", "_stream_duplex", "_stream_passthrough", "_stream_readable", "_stream_transform", "_stream_wrap", "_stream_writable", "_tls_common", "_tls_wrap", "assert", "assert/strict", "async_hooks", "buffer", "child_process", "cluster", "console", "constants", "crypto", "dgram", "diagnostics_channel", "dns", "dns/promises", "domain", "events", "fs", "fs/promises", "http", "http2", "https", "inspector", "module", "net", "os", "path", "path/posix", "path/win32", "perf_hooks", "process", "punycode", "querystring", "readline", "repl", "stream", "stream/consumers", "stream/promises", "stream/web", "string_decoder", "sys", "timers", "timers/promises", "tls", "trace_events", "tty", "url", "util", "util/types", "v8", "vm", "wasi", "worker_threads", "zlib"];
