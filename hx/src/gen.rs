//! Random worlds, one profile per property: every profile turns on the features its property is about.
use crate::model::{self, Opts};
use crate::world::{Op, World};
use serde_json::{json, Map, Value};

/// `hot`: a word of the sources that this world is about; `long`: a number of theirs
pub struct Rng(u64, Option<&'static str>, Option<usize>);
impl Rng {
    pub fn new(seed: u64, i: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567, None, None);
        r.next();
        r.next();
        let w = crate::words::words();
        if !w.new.is_empty() && r.p(40) { r.1 = Some(r.pick(&w.new)); } else if !w.old.is_empty() && r.p(8) { r.1 = Some(r.pick(&w.old)); }
        if !w.numbers.is_empty() && r.p(30) { r.2 = Some(*r.pick(&w.numbers)); }
        r
    }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn n(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn p(&mut self, pct: usize) -> bool { self.n(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.n(v.len()); &v[i] }
    pub fn s(&mut self, v: &[&str]) -> String {
        let s = (*self.pick(v)).to_string();
        if let Some(h) = self.1 { if self.p(8) { return self.mixed(s, h); } }
        if let Some(n) = self.2 { if self.p(4) && !s.is_empty() { let k = (n + 2 - self.n(4)) / s.chars().count(); return s.repeat(k.clamp(1, 200)); } }
        s
    }
    fn mixed(&mut self, s: String, h: &str) -> String {
        let at = { let b: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); if b.is_empty() { 0 } else { *self.pick(&b) } };
        match self.n(7) { 0 => h.to_string(), 1 => format!("{s}{h}"), 2 => format!("{h}{s}"), 3 => format!("{}{h}{}", &s[..at], &s[at..]), 4 => format!("{s}/{h}"), 5 => format!("{h}/{s}"), _ => format!(".{h}") }
    }
    fn shuffle<T>(&mut self, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = self.n(i + 1); v.swap(i, j); } }
}

/// percentages
#[derive(Clone, Default)]
struct F { query: usize, alias: usize, prefer: usize, exports: usize, imports: usize, browser: usize, main: usize, ts: usize, links: usize, broken: usize, side: usize, desc: usize, ext: usize, enforce: usize, dots: usize, odd: usize, modules: usize, nosym: usize, resolvers: usize, twin: usize, edits: usize, par: usize, sidefx: usize }

fn profile(id: &str) -> F {
    let d = F { query: 10, modules: 60, ext: 30, main: 40, nosym: 70, resolvers: 1, exports: 0, ..Default::default() };
    match id {
        "C01" => F { query: 90, alias: 25, browser: 25, ts: 25, prefer: 10, links: 10, ..d },
        "C02" => F { odd: 50, exports: 10, imports: 15, ..d },
        "C03" => F { dots: 60, nosym: 100, links: 10, ..d },
        "C04" => F { links: 60, dots: 60, nosym: 40, exports: 20, browser: 10, alias: 10, ext: 50, prefer: 10, ..d },
        "C05" => F { ext: 100, enforce: 60, links: 10, main: 30, ..d },
        "C06" => F { main: 100, browser: 30, enforce: 10, links: 5, ..d },
        "C07" => F { modules: 100, exports: 30, broken: 15, links: 5, main: 50, ..d },
        "C08" => F { alias: 100, query: 20, prefer: 5, ..d },
        "C09" => F { prefer: 70, alias: 10, modules: 90, ..d },
        "C10" | "C11" | "C12" => F { exports: 90, imports: 40, modules: 90, main: 10, ext: 5, ..d },
        "C13" => F { exports: 90, imports: 50, dots: 90, modules: 90, main: 5, ext: 5, ..d },
        "C14" => F { exports: 95, modules: 100, main: 60, dots: 20, twin: 30, ext: 30, ..d },
        "C15" => F { imports: 95, modules: 80, dots: 20, query: 10, ..d },
        "C16" => F { browser: 95, modules: 70, ext: 50, exports: 5, query: 10, ..d },
        "C17" => F { side: 70, sidefx: 60, desc: 60, links: 20, dots: 10, broken: 5, imports: 40, browser: 20, ..d },
        "C18" => F { resolvers: 3, twin: 60, exports: 50, imports: 40, browser: 30, main: 60, side: 25, sidefx: 50, modules: 80, links: 10, broken: 10, alias: 10, par: 30, ..d },
        "C19" => F { side: 90, sidefx: 100, broken: 30, exports: 20, imports: 20, desc: 20, ..d },
        "C20" => F { ts: 100, alias: 5, query: 15, ..d },
        "C21" => F { ts: 100, ..d },
        "C22" | "C26" => F { query: 30, alias: 20, prefer: 15, exports: 50, imports: 40, browser: 40, main: 50, ts: 15, links: 15, broken: 20, side: 15, sidefx: 40, desc: 30, ext: 50, enforce: 20, dots: 40, odd: 40, modules: 80, nosym: 60, resolvers: 1, twin: 10, edits: 0, par: 0 },
        "C23" => F { query: 50, alias: 15, exports: 15, imports: 15, prefer: 10, broken: 15, ts: 15, side: 20, browser: 15, odd: 15, ..d },
        "C24" => F { ext: 80, enforce: 50, resolvers: 2, alias: 50, prefer: 25, main: 60, browser: 40, exports: 30, imports: 20, desc: 25, ts: 15, side: 20, sidefx: 50, links: 40, nosym: 50, query: 5, ..d },
        "C25" => F { edits: 100, side: 50, sidefx: 100, main: 80, exports: 40, browser: 20, modules: 80, ..d },
        _ => d,
    }
}

const STEMS: &[&str] = &["a", "b", "ab", "index", "main", "lib", "é", "日本", "a.b", "x", "A"];
const EXTS: &[&str] = &[".js", ".ts", ".json", "", ".mjs", ".js.js", ".d.ts", ".jsx"];
const PKGS: &[&str] = &["p", "pp", "@s/q", "@s/qq", "é", "p-x", "a", "@/q"];
const LEVELS: &[&str] = &["", "src", "src/a", "node_modules/p", "lib", "node_modules"];

pub struct G { pub r: Rng, f: F, w: World, id: String }

fn join(a: &str, b: &str) -> String { if a.is_empty() { b.to_string() } else { format!("{a}/{b}") } }

impl G {
    fn file_name(&mut self) -> String { format!("{}{}", self.r.s(STEMS), self.r.s(EXTS)) }
    fn add(&mut self, p: String, text: &str) { if !self.w.files.iter().any(|f| f.0 == p) { self.w.files.push((p, text.to_string())); } }
    fn has(&self, p: &str) -> bool { self.w.files.iter().any(|f| f.0 == p) }

    /// make dir/target exist as a file, creating what the path goes through; never outside the world
    fn ensure(&mut self, dir: &str, target: &str) {
        let mut at: Vec<String> = dir.split('/').filter(|s| !s.is_empty()).map(String::from).collect();
        let segs: Vec<&str> = target.split('/').collect();
        if target.starts_with('/') || target.len() > 1200 { return; }
        for (i, s) in segs.iter().enumerate() {
            match *s {
                "" | "." => {}
                ".." => { if at.pop().is_none() { return; } }
                n => {
                    if n.contains('\0') || n.contains('?') && self.r.p(50) { return; }
                    at.push(n.to_string());
                    if i + 1 < segs.len() { self.w.dirs.push(at.join("/")); } else { let p = at.join("/"); if p != "package.json" && !p.ends_with("/package.json") { self.add(p, "x"); } }
                }
            }
        }
    }

    fn some_rel_file(&mut self, dir: &str) -> String {
        let pre = if dir.is_empty() { String::new() } else { format!("{dir}/") };
        let c: Vec<String> = self.w.files.iter().filter(|f| f.0.starts_with(&pre) && !f.0.contains("package.json") && !f.0[pre.len()..].contains("node_modules")).map(|f| f.0[pre.len()..].to_string()).collect();
        if c.is_empty() { "a.js".into() } else { self.r.pick(&c).clone() }
    }

    fn target(&mut self, dir: &str, shape: u8) -> String {
        if self.r.p(self.f.dots * 2 / 3) {
            let t = ["./lib/../a.js", "./../b.js", "./a/../../b.js", "./lib/./../a.js", "./..//b.js", "././a.js", "./lib/../../p/a.js", "./lib//../../b.js", "./lib/.././../b.js", "./lib/...js", "./..", "./a/..", "./a\\../b.js", "./..\\b.js", "./lib\\../../b.js", "./.../../b.js", "./..a/../../b.js", "./%2e%2e/b.js", "./.. /b.js", "c:/../../b.js", "c:/../b.js", "Z:\\../../b.js", "c:/a.js", "a:/../../../b.js", ".../../../b.js", ".../../b.js", "/../b.js"];
            let d = ["./lib/", "./lib/../", "./../", "./", "./a/../../lib/", "././lib/", ".//", "./../lib/"];
            let s = ["./lib/*", "./*", "./../*", "./lib/../*", "./lib/../*.js", "./*/../../b.js", "./*/a.js", "./*/*", "./lib/*/../*"];
            if self.r.p(12) {
                // as many steps down as up, one more or one less, with empty steps between them
                let n = *self.r.pick(&[2usize, 3, 5, 9, 17, 33, 65, 70, 130]);
                let mut x = String::from("./");
                for _ in 0..n { let e = self.r.s(&["d/", "d/", "d/", "d/", "d//", "d/./", "é/"]); x.push_str(&e); }
                let up = n + *self.r.pick(&[0usize, 0, 1, 1, 2]) - usize::from(self.r.p(20));
                x.push_str(&"../".repeat(up));
                x.push_str(&self.r.s(&["b.js", "a.js", "lib/a.js", "p/a.js"]));
                return match shape { 0 => x, 1 => x[..x.rfind('/').unwrap() + 1].to_string(), _ => x[..x.rfind('/').unwrap() + 1].to_string() + "*" };
            }
            return match shape { 0 => self.r.s(&t), 1 => self.r.s(&d), _ => self.r.s(&s) };
        }
        if self.r.p(6) { return self.r.s(&["", "/", ".", "..", "/abs.js", "x", "../b.js", ".hidden", "a.js", "p/a.js", "pp", "#a", "./", "*", "./lib/", "./*"]); }
        match shape {
            0 => { let f = if self.r.p(60) { self.some_rel_file(dir) } else { self.file_name() }; format!("./{f}{}", if self.r.p(4) { "?q" } else { "" }) }
            1 => self.r.s(&["./lib/", "./a/", "./", "./lib/a/", "./b/", "./é/"]),
            _ => self.r.s(&["./lib/*", "./*", "./lib/*.js", "./*.js", "./a/*/b.js", "./*/*.js", "./é/*", "./b/*", "./*/*/*.js", "./*/*/*/*", "./**", "./é*é*日*.js", "./lib/*/*/*/*/*"]),
        }
    }
    fn value(&mut self, dir: &str, shape: u8, depth: usize) -> Value {
        let k = self.r.n(100);
        let cond = if self.id == "C10" { 70 } else { 30 };
        if k < cond && depth > 0 { return self.conds(dir, shape, depth - 1); }
        if k < cond + 14 && depth > 0 {
            let n = self.r.n(4);
            let mut a = vec![];
            for _ in 0..n { let v = match self.r.n(10) { 0 => Value::Null, 1 | 2 | 3 => self.conds(dir, shape, depth - 1), _ => json!(self.target(dir, shape)) }; a.push(v); }
            if self.r.p(self.f.broken / 3) { a.push(json!([1])); }
            return Value::Array(a);
        }
        if k < cond + 18 { return Value::Null; }
        if self.r.p(self.f.broken / 3) { return self.r.pick(&[json!(1), json!(true), json!(1.5)]).clone(); }
        json!(self.target(dir, shape))
    }
    fn conds(&mut self, dir: &str, shape: u8, depth: usize) -> Value {
        let mut names: Vec<String> = ["node", "import", "x", "y", "webpack"].iter().map(|s| s.to_string()).collect();
        self.r.shuffle(&mut names);
        names.truncate(1 + self.r.n(4));
        // names that nearly are others
        if self.r.p(if self.r.1.is_some() { 40 } else { 4 }) { let i = self.r.n(names.len()); let n = self.near(&names[i].clone()); if !names.contains(&n) && n != "default" { names[i] = n; } }
        if self.r.p(50) { if self.r.p(12) { let i = self.r.n(names.len()); names.insert(i, "default".into()); } else { names.push("default".into()); } }
        let mut m = Map::new();
        for n in names { let v = self.value(dir, shape, depth); m.insert(n, v); }
        if self.r.p(4) { m = Map::new(); }
        Value::Object(m)
    }
    /// a name that differs from this one in a little
    fn near(&mut self, n: &str) -> String {
        let w = self.r.1.unwrap_or("-x");
        match self.r.n(6) { 0 => format!("{w}{n}"), 1 | 2 => format!("{n}{w}"), 3 => w.to_string(), 4 => n.to_uppercase(), _ => self.r.s(&["production", "DEFAULT", "node ", "nod", "require", "development", "é", ""]) }
    }
    fn shape_of(&mut self, key: &str) -> u8 { if self.r.p(5) { self.r.n(3) as u8 } else if key.ends_with('/') { 1 } else if key.ends_with('*') { 2 } else { 0 } }
    fn star(&self) -> usize { match self.id.as_str() { "C11" | "C12" | "C13" => 8, "C22" => 4, _ => 1 } }
    fn subpath(&mut self) -> String {
        let mut n = 1 + self.r.n(3);
        if let Some(k) = self.r.2 { if self.r.p(10) { n = (k + 2 - self.r.n(4)).clamp(1, 80); } }
        let mut s: Vec<String> = vec![];
        for _ in 0..n { s.push(if self.r.p(self.f.dots / 3) { self.r.s(&["..", ".", "", "...", "a"]) } else { if self.r.p(self.star()) { self.r.s(&["*", "a*", "**", "*.js", "a*b*c", "$1", "\\"]) } else { self.r.s(&["lib", "a", "b", "ab", "a.js", "é", "日本", "b.js", "x"]) } }); }
        s.join("/")
    }
    /// an exports map, and requests worth trying ("." or "./sub")
    fn exports(&mut self, dir: &str) -> Value {
        let d = if self.id == "C10" { 3 } else { 2 };
        let v = match self.r.n(10) {
            0 => json!(self.target(dir, 0)),
            1 => self.value(dir, 0, d),
            2 => self.conds(dir, 0, d),
            _ => {
                let mut keys: Vec<String> = vec![];
                for _ in 0..1 + self.r.n(6) {
                    keys.push(match self.r.n(10) { 0 | 1 => ".".to_string(), 2 => "./".into(), 3 => "./*".into(),
                        4 => format!("./{}", self.subpath()), 5 => format!("./{}/", self.subpath()), 6 => format!("./{}*", self.subpath()), 7 => format!("./{}/*", self.subpath()),
                        8 => format!("./{}*", self.r.s(&["a", "ab", "abc", "é", "l", "li"])), _ => format!("./{}", self.file_name()) });
                }
                if self.r.p(self.f.broken / 3) { keys.push(self.r.s(&["node", "a", "../x", ".x", "/y", "", ".."])); }
                let mut m = Map::new();
                for k in keys { let sh = self.shape_of(&k); let v = self.value(dir, sh, d); m.insert(k, v); }
                Value::Object(m)
            }
        };
        v
    }
    fn imports(&mut self, dir: &str) -> Value {
        if self.r.p(self.f.broken / 4) { return self.r.pick(&[json!("./a.js"), json!([]), json!({"a": "./a.js"}), json!({"#": "./a.js"}), json!({"#/a": "./a.js"}), json!({"#a": 3})]).clone(); }
        let mut m = Map::new();
        for _ in 0..1 + self.r.n(5) {
            let k = match self.r.n(8) { 0 => "#a".to_string(), 1 => "#a/".into(), 2 => "#a*".into(), 3 => "#a/*".into(), 4 => format!("#{}/", self.r.s(&["ab", "lib", "é", "b"])), 5 => format!("#{}*", self.r.s(&["ab", "li", "é", "b/"])), 6 => format!("#{}", self.r.s(&["ab", "b", "é", "a/b", "lib/a.js"])), _ => "#b".into() };
            let sh = self.shape_of(&k);
            let v = if self.r.p(25) && sh == 0 { json!(self.r.s(&["p", "@s/q", "pp/a.js", "p/lib/a", "#b", "#ab", "../b.js", "/x", "p/a", "é"])) } else if self.r.p(10) && sh == 2 { json!(self.r.s(&["p/*", "#b*", "./lib/*", "pp/lib/*"])) } else { self.value(dir, sh, 2) };
            m.insert(k, v);
        }
        Value::Object(m)
    }
    fn import_request(&mut self, map: &Value) -> String {
        let keys: Vec<String> = map.as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default();
        if keys.is_empty() || self.r.p(15) { return self.r.s(&["#a", "#b", "#", "#/x", "#a/", "#ab/c", "#é", "#nope", "#a/b/c"]); }
        let k = self.r.pick(&keys).clone();
        if let Some(p) = k.strip_suffix('*') { format!("{p}{}", self.subpath()) } else if k.ends_with('/') { format!("{k}{}", self.subpath()) } else { k }
    }
    fn export_request(&mut self, map: &Value) -> String {
        let keys: Vec<String> = map.as_object().map(|m| m.keys().filter(|k| k.starts_with('.')).cloned().collect()).unwrap_or_default();
        if keys.is_empty() || self.r.p(12) { return if self.r.p(50) { ".".into() } else { format!("./{}", self.subpath()) }; }
        let k = self.r.pick(&keys).clone();
        if let Some(p) = k.strip_suffix('*') { format!("{p}{}", self.subpath()) } else if k.ends_with('/') { format!("{k}{}", self.subpath()) } else { k }
    }
    fn browser(&mut self, dir: &str) -> Value {
        if self.r.p(8) { return self.r.pick(&[json!("./a.js"), json!(false), json!(true), json!([])]).clone(); }
        let mut m = Map::new();
        let key = |g: &mut G| -> String { match g.r.n(6) { 0 => g.r.s(PKGS), 1 => format!("./{}", g.some_rel_file(dir)), 2 => { let f = g.some_rel_file(dir); format!("./{}", f.split('.').next().unwrap()) } 3 => g.some_rel_file(dir), 4 => format!("./{}", g.file_name()), _ => g.r.s(&["p/a.js", "./lib", "./index.js", "a", "b", ".", "../a.js", "../b.js", "..", "./../lib/a.js", "../a"]) } };
        for _ in 0..1 + self.r.n(5) {
            let k = key(self);
            let v = match self.r.n(12) { 0 | 1 => json!(false), 2 => self.r.pick(&[json!(true), json!(1), Value::Null, json!({})]).clone(), _ => json!(key(self)) };
            m.insert(k, v);
        }
        Value::Object(m)
    }
    fn side_value(&mut self) -> Value {
        let n = if self.r.p(self.f.broken) { 8 } else { 5 };
        match self.r.n(n) {
            0 => json!(true), 1 => json!(false), 2 => json!([]), 3 => json!(["a.js", "b/*", "a.js"]), 4 => match self.r.n(4) {
                0 => json!(["é"]),
                1 => { let n = self.r.n(4); let mut a = vec![]; for _ in 0..n { a.push(json!(self.r.s(&["./a.js", "../x", "", " a ", "A.js", "/a", "a/", "*.css", "**/*", "./", ".", "./b/*.js", "a.js", "!a.js", "é/*", "a//b", "\\a", "src/a.js", "#a", "a?b"]))); } Value::Array(a) }
                2 => json!([self.r.s(STEMS), format!("./{}", self.file_name()), self.r.s(EXTS)]),
                _ => json!(["b.js", "a.js", "./b.js", "B.js"]),
            },
            5 => json!("x"),
            6 => { let mut a = vec![json!("a.js"), json!("b/*")]; a.truncate(self.r.n(3)); let odd = self.r.pick(&[Value::Null, json!(1), json!(true), json!(["a.js"]), json!({}), json!(1.5)]).clone(); let i = self.r.n(a.len() + 1); a.insert(i, odd); Value::Array(a) }
            _ => self.r.pick(&[Value::Null, json!(0), json!({}), json!(1.5), json!("false"), json!({"a.js": true})]).clone(),
        }
    }
    fn desc(&mut self, dir: &str, own: &str) -> (Value, Vec<String>) {
        let mut m = Map::new();
        let mut reqs = vec![];
        if self.r.p(75) {
            let n = if self.r.p(60) { own.to_string() } else { self.r.s(&["p", "pp", "self", "@s/q", "", "é"]) };
            let v = if self.r.p(4) { json!(3) } else { json!(n) };
            m.insert("name".into(), v);
        }
        if self.r.p(self.f.main) {
            let mut fields = vec!["main", "module", "browser2", "main2"];
            self.r.shuffle(&mut fields);
            fields.truncate(1 + self.r.n(3));
            for f in fields {
                let v = match self.r.n(14) { 0 => json!("."), 1 => json!("./"), 2 => json!("missing"), 3 => json!(3), 4 => Value::Null, 5 => json!("lib"), 6 => json!("./lib"), 7 => json!(if self.r.p(50) { "../b.js".to_string() } else { format!("/{}", self.some_rel_file(dir)) }), 8 => json!("./lib/"), 9 => json!(["a"]),
                    10 => { let f = self.some_rel_file(dir); json!(f.split('.').next().unwrap()) } 11 => { let f = self.some_rel_file(dir); json!(format!("./{f}")) } _ => json!(self.some_rel_file(dir)) };
                m.insert(f.into(), v);
            }
        }
        if self.r.p(self.f.exports) {
            let e = self.exports(dir);
            for _ in 0..4 {
                let sub = self.export_request(&e);
                self.reach(dir, &model::exports_targets(&e, &sub, &["node".into(), "import".into()]).unwrap_or_default());
                reqs.push(sub);
            }
            if self.r.p(30) { for c in [vec![], vec!["x".to_string()], vec!["y".to_string(), "webpack".to_string()]] { for s in reqs.clone() { self.reach(dir, &model::exports_targets(&e, &s, &c).unwrap_or_default()); } } }
            // sometimes the plain path exists as well, so that going round the map shows
            for s in reqs.clone() { if self.r.p(30) { self.ensure(dir, &s); } }
            m.insert("exports".into(), e);
        }
        if self.r.p(self.f.imports) {
            let e = self.imports(dir);
            for _ in 0..4 {
                let s = self.import_request(&e);
                self.reach(dir, &model::imports_targets(&e, &s, &["node".into(), "import".into()]).unwrap_or_default());
                reqs.push(s);
            }
            m.insert("imports".into(), e);
        }
        if self.r.p(self.f.browser) { let b = self.browser(dir); m.insert("browser".into(), b); }
        if self.r.p(self.f.sidefx) && self.r.p(80) { let s = self.side_value(); m.insert("sideEffects".into(), s); }
        if self.r.p(30) { m.insert("version".into(), json!("1.0.0")); }
        (Value::Object(m), reqs)
    }
    /// the same text, or one that differs from it in a little
    fn nearly(&mut self, t: String) -> String {
        if self.r.p(50) { return t; }
        let mut v: Value = match serde_json::from_str(&t) { Ok(v) => v, Err(_) => return t };
        let mut keys: Vec<String> = v.as_object().map(|m| m.keys().filter(|k| ["exports", "imports", "browser", "main"].contains(&k.as_str())).cloned().collect()).unwrap_or_default();
        self.r.shuffle(&mut keys);
        keys.truncate(1);
        for k in keys {
            if k == "exports" && self.r.p(10) { let e = v["exports"].clone(); v["imports"] = e; continue; }
            if k == "imports" && self.r.p(10) { let e = v["imports"].clone(); v["exports"] = e; continue; }
            let s = v[&k].to_string();
            let c: Vec<char> = s.chars().collect();
            let letters: Vec<usize> = (0..c.len()).filter(|&i| c[i].is_ascii_alphabetic() && i > 0 && c[i - 1] != '\\').collect();
            if letters.is_empty() { continue; }
            let i = *self.r.pick(&letters);
            let put = |r: String| -> String { c[..i].iter().collect::<String>() + &r + &c[i + 1..].iter().collect::<String>() };
            let n = match self.r.n(9) {
                7 => { let j = 1 + self.r.n(c.len().saturating_sub(2).max(1)); c.iter().enumerate().filter(|x| x.0 != j).map(|x| x.1).collect() }
                8 => { let t = self.r.s(&["*\"", "/\"", "./", ".", "\\u0000"]); let by = self.r.s(&["\"", "/\"", "*\"", "./../", "/", "", "x\""]); s.replacen(&t, &by, 1) }
                0 => s.replace("lib", "a"),
                1 => put(if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() }.to_string()),
                2 => s.to_ascii_uppercase().replace("NODE", "node").replace("IMPORT", "import").replace("DEFAULT", "default").replace("TRUE", "true").replace("FALSE", "false").replace("NULL", "null"),
                3 => put(format!("{} ", c[i])),
                4 => put("x".into()),
                5 => if let Value::Object(m) = &v[&k] { let mut e: Vec<(String, Value)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect(); e.reverse(); Value::Object(e.into_iter().collect()).to_string() } else { s.clone() },
                _ => if let Value::Object(m) = &v[&k] { let mut e: Vec<(String, Value)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect(); if e.len() > 1 { let x = e[0].1.clone(); e[0].1 = e[1].1.clone(); e[1].1 = x; } Value::Object(e.into_iter().collect()).to_string() } else { format!("[{s}]") },
            };
            if let Ok(x) = serde_json::from_str::<Value>(&n) { v[&k] = x; }
        }
        v.to_string()
    }
    fn reach(&mut self, dir: &str, list: &[String]) {
        for t in list {
            if self.r.p(80) { let (t, _, _) = model::split(t); self.ensure(dir, &t); }
        }
    }
    fn desc_text(&mut self, v: &Value) -> String {
        if self.r.p(self.f.broken) { return self.r.s(&["", "{", "[1,2]", "3", "null", "\"x\"", "{\"name\": }", "{} x", "\u{feff}{}"]); }
        if self.r.p(20) { serde_json::to_string_pretty(v).unwrap() } else { v.to_string() }
    }

    fn opts(&mut self) -> Opts {
        let f = self.f.clone();
        let mut o = Opts { ext: vec![".js".into(), ".json".into(), ".node".into()], enforce: None, alias: vec![], prefer: self.r.p(f.prefer), shared: false, symlinks: !self.r.p(f.nosym), desc: Some("package.json".into()), main_files: vec!["index".into()], main_fields: vec!["main".into()], browser: self.r.p(f.browser), conds: vec!["node".into()], tsconfig: None };
        if self.r.p(f.ext) {
            let mut e: Vec<String> = [".js", ".ts", ".json", ".mjs", "", ".js.js", ".jsx", "é", "/index.js"].iter().map(|s| s.to_string()).collect();
            if !self.r.p(40) { e.retain(|x| !x.is_empty()); }
            if !self.r.p(10) { e.retain(|x| !x.starts_with('/')); }
            self.r.shuffle(&mut e);
            e.truncate(self.r.n(5));
            if self.r.1.is_some() { for _ in 0..2 { e.push(self.r.s(EXTS)); } e.retain(|x| !x.is_empty()); }
            o.ext = e;
        }
        if self.r.p(f.enforce) { o.enforce = *self.r.pick(&[None, Some(true), Some(false)]); }
        if self.r.p(f.main) {
            let mut v: Vec<String> = ["main", "module", "browser2", "main2"].iter().map(|s| s.to_string()).collect();
            self.r.shuffle(&mut v);
            v.truncate(self.r.n(4));
            o.main_fields = v;
            if self.r.p(40) { o.main_files = match self.r.n(5) { 0 => vec![], 1 => vec!["a".into(), "index".into()], 2 => vec!["index.js".into(), "main".into()], 3 => vec!["lib/index".into(), "é".into()], _ => vec!["main".into(), "index".into()] }; }
        }
        if self.r.p(f.exports + f.imports) {
            let mut c: Vec<String> = ["node", "import", "x", "y", "webpack"].iter().map(|s| s.to_string()).collect();
            self.r.shuffle(&mut c);
            c.truncate(self.r.n(4));
            if self.r.p(50) { o.conds = vec!["node".into(), "import".into()]; } else { o.conds = c; }
            if self.r.p(if self.r.1.is_some() { 30 } else { 4 }) { let i = self.r.n(o.conds.len() + 1); let n = if i < o.conds.len() { o.conds[i].clone() } else { "x".into() }; let n = self.near(&n); if i < o.conds.len() && self.r.p(50) { o.conds[i] = n; } else { o.conds.push(n); } }
        }
        if self.r.p(f.desc) { o.desc = match self.r.n(4) { 0 => None, 1 => Some("desc.json".into()), _ => Some("package.json".into()) }; }
        if self.r.p(f.alias) {
            for _ in 0..1 + self.r.n(4) {
                let k = match self.r.n(8) { 0 => "./a".into(), 1 => "@s".into(), 2 => "".into(), 3 => self.r.s(&["é", "日", "#a", "al", "alias/", "./", "/", "../"]), 4 | 5 => self.r.s(PKGS), _ => self.r.s(STEMS) };
                let v = match self.r.n(10) { 0 => None, 1 => Some("./lib".into()), 2 => Some("./missing".into()), 3 => Some("".into()), 4 => Some("$R/src".into()), 5 => Some("$R/lib/a".into()), 6 => Some(self.r.s(PKGS)), 7 => Some(format!("./{}", self.some_rel_file("src"))), 8 => Some(self.r.s(&["./a", "./b", "p/a", "pp", "p"])), _ => Some(format!("./{}", self.file_name())) };
                o.alias.push((k, v));
            }
            // the same key again, with another target
            if self.r.p(20) { let i = self.r.n(o.alias.len()); let k = o.alias[i].0.clone(); let v = match self.r.n(5) { 0 => None, 1 => Some("./lib".into()), 2 => Some(self.r.s(PKGS)), _ => Some(format!("./{}", self.some_rel_file("src"))) }; let at = if self.r.p(60) { i + 1 } else { self.r.n(o.alias.len() + 1) }; o.alias.insert(at, (k, v)); }
        }
        if self.r.p(f.ts) { o.tsconfig = Some(if self.r.p(96) { "$R/tsconfig.json".into() } else { "$R/src/nope.json".into() }); }
        o
    }

    fn ts_paths(&mut self) -> Value {
        let mut m = Map::new();
        for _ in 0..1 + self.r.n(5) {
            let k = match self.r.n(9) { 0 => "*".to_string(), 1 => "a".into(), 2 => "@l/*".into(), 3 => "a*".into(), 4 => "@l/x*".into(), 5 => "ab*b".into(), 6 => "é/*/é".into(), 7 => "./a".into(), _ => format!("{}/*", self.r.s(&["a", "ab", "lib", "p", "日"])) };
            let mut l = vec![];
            for _ in 0..self.r.n(4) {
                let f = self.some_rel_file("src");
                l.push(match self.r.n(8) { 0 => json!("./*"), 1 => json!("./lib/*"), 2 => json!("*"), 3 => json!(format!("./{f}")), 4 => json!("missing"), 5 => json!("$R/lib/*"), 6 => json!("a/*/../*"), _ => json!(f) });
            }
            let v = if self.r.p(3) { self.r.pick(&[json!("x"), json!([1]), Value::Null]).clone() } else { Value::Array(l) };
            m.insert(k, v);
        }
        if self.r.p(2) { json!([]) } else { Value::Object(m) }
    }
    fn ts_file(&mut self, dir: &str, name: &str, level: usize) {
        let mut co = Map::new();
        if self.r.p(85) { let v = match self.r.n(8) { 0 => json!("."), 1 => json!("./src"), 2 => json!("src"), 3 => json!("$R/src"), 4 => json!(""), 5 => json!(3), 6 => Value::Null, _ => json!("./src") }; co.insert("baseUrl".into(), v); }
        if self.r.p(80) { let p = self.ts_paths(); co.insert("paths".into(), p); }
        if self.r.p(20) { co.insert("other".into(), json!({"k": {"deep": 1}})); }
        let mut m = Map::new();
        if self.id == "C21" && self.r.p(90) || self.r.p(20) {
            if level < 3 {
                let (d2, n2) = match self.r.n(6) { 0 => ("", "base.json"), 1 => ("src", "base.json"), 2 => ("node_modules/p", "tsconfig.json"), 3 => ("", "base2.json"), 4 => ("lib", "base3.json"), _ => ("src/a", "tsb.json") };
                let target = join(d2, n2);
                let e = match self.r.n(8) { 0 => json!("./nope"), 1 => json!(3), 2 if self.r.p(30) => Value::Null, _ => {
                    if !self.has(&target) { self.ts_file(d2, n2, level + 1); }
                    json!(if target.starts_with("node_modules/") { target["node_modules/".len()..].to_string() } else if self.r.p(50) { format!("$R/{target}") } else { let up = if dir.is_empty() { "./".to_string() } else { "../".repeat(dir.split('/').count()) }; format!("{up}{target}") })
                } };
                m.insert("extends".into(), e);
            }
        }
        if self.r.p(92) { m.insert("compilerOptions".into(), if self.r.p(3) { self.r.pick(&[json!("x"), Value::Null, json!([1])]).clone() } else { Value::Object(co) }); }
        let mut text = serde_json::to_string_pretty(&Value::Object(m)).unwrap();
        match self.r.n(30) { 0 => text = "{".into(), 1 => text = "".into(), 2 => text = "// only a comment".into(), 3..=9 => text = format!("// comment\n{text} /* end */"), _ => {} }
        self.add(join(dir, name), &text);
    }

    fn request(&mut self, base: &str, pkg_reqs: &[(String, String, String)]) -> String {
        let mut req = match self.r.n(100) {
            0..=29 => {
                // a real file, relative to the base directory
                let f = self.some_rel_file("");
                let up = if base.is_empty() { 0 } else { base.split('/').count() };
                let mut s = if !base.is_empty() && f.starts_with(&format!("{base}/")) && self.r.p(70) { format!("./{}", &f[base.len() + 1..]) } else if up == 0 { format!("./{f}") } else { format!("{}{f}", "../".repeat(up)) };
                if self.r.p(45) { if let Some(i) = s.rfind('.') { if i > s.rfind('/').unwrap_or(0) + 1 { s.truncate(i); } } }
                if self.r.p(20) { if let Some(i) = s.rfind('/') { s.truncate(i); } }
                if self.r.p(5) { s = format!("$R/{f}"); }
                s
            }
            30..=44 => { let f = self.r.s(STEMS); format!("./{f}{}", if self.r.p(40) { self.r.s(EXTS) } else { String::new() }) }
            45..=64 => { let p = self.r.s(PKGS); if self.r.p(50) { p } else { format!("{p}/{}", if self.r.p(50) { self.file_name() } else { self.subpath() }) } }
            65..=90 if !pkg_reqs.is_empty() => {
                let (_, name, sub) = self.r.pick(pkg_reqs).clone();
                if sub.starts_with('#') { sub } else if sub == "." { name } else { format!("{name}{}", &sub[1..]) }
            }
            91..=94 => self.r.s(&["", ".", "..", "./", "../", "/", "#", "@", "@/", "@s", "@s/", "#a", "...", "./.", "p/", "p/.", "p/..", "@s/q/", "/nope", "fs", "a//b", "./a//../b", "node_modules/p", "../node_modules/p"]),
            _ => { let a = self.r.s(STEMS); let b = self.subpath(); format!("{a}/{b}") }
        };
        if self.r.p(self.f.alias / 2) {
            let ks: Vec<String> = self.w.res.iter().flat_map(|o| o.alias.iter().map(|a| a.0.clone())).collect();
            if !ks.is_empty() { let k = self.r.pick(&ks).clone(); req = format!("{k}{}", match self.r.n(4) { 0 => String::new(), 1 => "/a".into(), 2 => format!("/{}", self.file_name()), _ => self.r.s(STEMS) }); }
        }
        if self.r.p(self.f.ts / 2) { req = match self.r.n(9) { 0 => "a".into(), 1 => "@l/a".into(), 2 => "@l/xa".into(), 3 => format!("a/{}", self.r.s(STEMS)), 4 => "abxb".into(), 5 => "é/a/é".into(), 6 => format!("lib/{}", self.file_name()), 7 => self.r.s(&["ab", "abb", "ab/b", "é/é", "é/é/é", "@l/", "日/本", "日/a", "p/a.js"]), _ => self.some_rel_file("src") }; }
        if self.r.p(self.f.odd) {
            req = match self.r.n(5) {
                0 => { let l = self.r.s(&["c:/a", "C:", "z:\\a", "c:", "C:a", "cc:/a", "1:/a", "é:/a", "c:/lib/a", "C:/..", "c:\\..\\a", ":", ":/a"]); l }
                1 => self.r.s(&["././a", "./../a", "...", ".a", "..a", ".../a", "..\\a", ".\\a", "/a", "//a", "a/../a", " ./a", "~/a", "./ a", "a b", "%2e/a", ".é"]),
                2 => { let n = 1 + self.r.n(6); let mut s = String::new(); for _ in 0..n { s.push(*self.r.pick(&['.', '/', 'a', '#', '?', '@', ':', '\\', 'é', '*', '日', '\0', ' ', '😀'])); } s }
                3 => { let f = self.r.s(STEMS); format!("/{f}") }
                _ => req,
            };
        }
        if self.id == "C09" && self.r.p(30) {
            // bare names, some starting with a dot, found below the base directory or as a package or as both
            let s = self.r.s(&[".cfg", "..x", ".a/b", "...", "....", ".é", "@a/b", "x", "a.b/c", "~"]);
            req = s.clone();
            for d in [base.to_string(), join(base, "node_modules"), "node_modules".to_string()] { if self.r.p(60) { let e = self.r.s(&["", ".js", "/index.js"]); self.ensure(&d, &format!("{s}{e}")); } }
        }
        if self.id == "C02" && self.r.p(25) {
            // the same name as a path below the base directory and as a package
            let drive = |g: &mut G| { let c = (b'A' + g.r.n(58) as u8) as char; let c = if g.r.p(90) && !c.is_ascii_alphabetic() { 'j' } else { c }; format!("{c}:{}", g.r.s(&["/", "\\", "/", "\\", "", "//", "a"])) };
            req = match self.r.n(4) {
                0 | 1 => { let d = drive(self); format!("{d}{}", self.r.s(&["a", "x.js", "", "lib/a", "é"])) }
                2 => { let n = 1 + self.r.n(3); let dots: String = (0..n).map(|_| self.r.s(&[".", ".", "..", "...", "~", "é"])).collect(); format!("{dots}{}", self.r.s(&["/a", "/a.js", "/lib/a", "a", "", "\\a", "/./a", "/ü"])) }
                _ => { let s = self.r.s(&[".", "..", "...", "....", ".x", "..x", "._", ".é", "@", "-", "_", "~"]); format!("{s}{}", self.r.s(&["/a", "/é.js", "", ".js", "/.", "/../a"])) }
            };
            for d in [base.to_string(), join(base, "node_modules"), "node_modules".to_string()] { if self.r.p(75) { let e = self.r.s(&["", ".js", "/index.js"]); let t = format!("{req}{e}"); if !t.ends_with('/') { self.ensure(&d, &t); } } }
        }
        // nearly the same request
        if self.r.p(4) && !req.is_empty() && !req.contains("$R") {
            let c: Vec<char> = req.chars().collect();
            let i = self.r.n(c.len());
            let rep: String = match self.r.n(5) { 0 | 1 => if c[i].is_lowercase() { c[i].to_uppercase().collect() } else { c[i].to_lowercase().collect() }, 2 => String::new(), 3 => format!("{}{}", c[i], c[i]), _ => format!("{}{}", c[i], self.r.s(&[" ", "-", "_", "/", ".", "\u{301}"])) };
            req = c[..i].iter().collect::<String>() + &rep + &c[i + 1..].iter().collect::<String>();
        }
        // a text of some length in bytes, with characters of several bytes
        if let Some(k) = self.r.2 { if self.r.p(if k > 80 { 15 } else { 4 }) {
            let want = (k + 3).saturating_sub(self.r.n(7));
            let c = self.r.s(&["é", "日", "😀", "a", "é/", "日/a"]);
            let add = want.saturating_sub(req.len());
            req.push_str(&c.repeat(add / c.len()));
            req.push_str(&"b".repeat(add % c.len()));
            if self.r.p(50) { req = format!("a{req}"); }
        } }
        if self.r.p(self.f.query) { req = format!("{req}{}", self.r.s(&["?", "#", "?q", "#f", "?q#f", "#f?q", "?a=b&c/d", "?#", "##", "#é", "?é#é", "?k=v#f", "?k=v&l#f=g", "?q/../x", "#./a", "?a?b#c#d", "\0#f", "\0?q", "\0", "\\#f", "\\?q", "%23f", "%3Fq", "#\0#", "?\0#f", "!a!b", "&a", ";v=1"])); }
        if self.r.p(self.f.dots / 3) { req = match self.r.n(4) { 0 => format!("{req}/.."), 1 => format!("./lib/../{req}"), 2 => format!("./{req}"), _ => format!("{req}/../{}", self.file_name()) }; }
        if self.r.p(4) { let n = self.r.n(3); req.push_str(["/", "/.", "?x"][n]); }
        req
    }
}

pub fn world(id: &str, seed: u64, i: u64) -> World {
    let mut g = G { r: Rng::new(seed, i), f: profile(id), w: World::default(), id: id.to_string() };
    // names that look like the marker of an unexplained failure
    if g.id == "C23" && g.r.p(20) { g.r.1 = Some("T0"); }
    if g.id == "C03" && g.r.p(60) { return paths_only(&mut g); }
    if g.id == "C26" && g.r.p(30) { return chains(&mut g); }
    if g.id == "C28" { return names_only(&mut g, i); }
    // project files
    let mut dirs = vec!["".to_string(), "src".to_string(), "lib".to_string()];
    for d in ["src/a", "src/é", "lib/a", "a", "src/a/b", "c:", "src/c:/lib", "b"] { if g.r.p(if d.contains(':') { g.f.odd } else { 45 }) { dirs.push(d.to_string()); } }
    for d in dirs.clone() {
        g.w.dirs.push(d.clone());
        for _ in 0..1 + g.r.n(4) { let f = g.file_name(); if g.r.p(85) { g.add(join(&d, &f), "x"); } }
        if g.r.p(g.f.main / 3) { g.add(join(&d, "index.js"), "x"); }
        // directories named like files, with and without something in them
        if g.r.p(g.f.ext / 3) { let f = g.file_name(); let f = join(&d, &f); if !g.has(&f) && !g.w.dirs.contains(&f) { g.w.dirs.push(f.clone()); if g.r.p(40) { let n = g.file_name(); g.add(join(&f, &n), "x"); } if g.r.p(25) { let e = g.r.s(&EXTS[..3]); g.add(format!("{f}/{e}"), "x"); } } }
        if g.r.p(g.f.ext / 2) { let s = g.r.s(STEMS); for e in [".js", ".ts", ".json", ".mjs", ""] { if g.r.p(50) { g.add(join(&d, &format!("{s}{e}")), "x"); } } }
    }
    // packages
    let mut reqs: Vec<(String, String, String)> = vec![];
    let mut extra: Vec<Op> = vec![];
    let mut pkg_dirs: Vec<(String, String)> = vec![];
    for l in LEVELS {
        if g.r.p(if l.is_empty() { g.f.modules + 20 } else { g.f.modules / 2 }) {
            let m = join(l, "node_modules");
            if g.r.p(90) { g.w.dirs.push(m.clone()); }
            for _ in 0..g.r.n(4) {
                let n = g.r.s(PKGS);
                if g.r.p(12) { let e = g.r.s(EXTS); g.add(format!("{m}/{n}{e}"), "x"); continue; }
                let d = format!("{m}/{n}");
                g.w.dirs.push(d.clone());
                for _ in 0..1 + g.r.n(4) { let f = g.file_name(); g.add(join(&d, &f), "x"); if g.r.p(40) { let f = g.file_name(); let s = g.r.s(&["lib", "a", "é", "lib/a"]); g.add(format!("{d}/{s}/{f}"), "x"); } }
                if g.r.p(40) { g.add(join(&d, "index.js"), "x"); }
                pkg_dirs.push((d, n));
            }
        }
    }
    for d in ["", "src", "src/a", "lib", "src/é"] { if g.r.p(if d.is_empty() { 70 } else { 25 }) { pkg_dirs.push((d.to_string(), g.r.s(&["root", "p", "self", "@s/q"]))); } }
    if g.r.p(25) { let extra: Vec<(String, String)> = pkg_dirs.iter().filter(|d| d.0.contains("node_modules")).map(|d| (format!("{}/{}", d.0, "lib"), "nested".to_string())).collect(); for e in extra { if g.r.p(40) { pkg_dirs.push(e); } } }
    let mut texts: Vec<String> = vec![];
    for (d, n) in pkg_dirs.clone() {
        if g.r.p(15) { continue; }
        let name = if g.r.p(g.f.desc / 2) { "desc.json" } else { "package.json" };
        if g.r.p(g.f.desc / 6) { g.w.dirs.push(join(&d, name)); continue; }
        let text = if g.r.p(g.f.twin) && !texts.is_empty() { let t = g.r.pick(&texts).clone(); g.nearly(t) } else {
            let (v, rs) = g.desc(&d, &n);
            for s in rs { reqs.push((d.clone(), n.clone(), s)); }
            let t = g.desc_text(&v);
            texts.push(t.clone());
            t
        };
        // texts with equal maps but different directories
        if g.f.twin > 0 { if let Ok(v) = serde_json::from_str::<Value>(&text) { if let Some(e) = v.get("exports") { for sub in [".", "./a", "./A", "./lib/a.js", "./b.js"] { let l = model::exports_targets(e, sub, &["node".into(), "import".into()]).unwrap_or_default(); g.reach(&d, &l); } if v.get("exports").is_some() { reqs.push((d.clone(), n.clone(), g.r.s(&[".", "./a", "./lib/a.js", "./b.js"]))); } } } }
        g.add(join(&d, name), &text);
    }
    // packages whose maps differ in one place only
    if g.r.p(if g.id == "C18" { 30 } else { 1 }) {
        let kind = g.r.p(60);
        let pre = if kind { "./" } else { "#" };
        let parts: Vec<(String, String)> = (0..1 + g.r.n(3)).map(|_| (format!("{pre}{}", g.r.s(&["x", "x/", "x/*", "x*", "l/", "l/*", "a.js", "X", "é/*"])), g.r.s(&["./l/", "./l/*", "./l/*.js", "./a.js", "./l/a.js", "./L/a.js", "./l/*/a.js", "./é/*"]))).collect();
        for i in 0..2 + g.r.n(2) {
            let mut e = parts.clone();
            if i > 0 {
                let j = g.r.n(e.len());
                let k = e[j].0.clone();
                let t = e[j].1.clone();
                let flip = |s: &str| -> String { s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
                match g.r.n(10) {
                    0 => e[j].0 = if k.ends_with('*') { k[..k.len() - 1].to_string() } else { format!("{k}*") },
                    1 => e[j].1 = if t.ends_with('*') { t[..t.len() - 1].to_string() } else { format!("{t}*") },
                    2 => { if k.ends_with('*') { e[j].0 = k[..k.len() - 1].to_string(); } if t.ends_with('*') { e[j].1 = t[..t.len() - 1].to_string(); } }
                    3 => e[j].0 = format!("{pre}{}", flip(&k[pre.len()..])),
                    4 => e[j].1 = flip(&t),
                    5 => e.reverse(),
                    6 => e[j].1 = t.replace('l', "lib"),
                    7 => e[j].1 = t[2..].to_string(),
                    8 => e[j].0 = if k.ends_with('/') { k[..k.len() - 1].to_string() } else { format!("{k}/") },
                    _ => { let w = g.r.1.unwrap_or(" "); e[j].1 = format!("{t}{w}"); }
                }
            }
            let shape = g.r.n(if i > 0 { 6 } else { 1 });
            let m: Map<String, Value> = e.iter().map(|(k, t)| (k.clone(), match shape { 1 => json!([t]), 2 => json!({"node": t}), _ => json!(t) })).collect();
            let (d, n) = if kind { (format!("node_modules/tw{i}"), format!("tw{i}")) } else { (format!("tw{i}"), format!("tw{i}")) };
            g.add(join(&d, "package.json"), &json!({"name": n, if kind { "exports" } else { "imports" }: m}).to_string());
            for f in ["a.js", "l/a.js", "L/a.js", "lib/a.js", "l/b.js", "l/a/a.js", "é/a.js", "A.js"] { if g.r.p(80) { g.ensure(&d, f); } }
            for (k, _) in &e {
                let rest = g.r.s(&["a.js", "a", "b.js", "a/a.js"]);
                let q = if let Some(x) = k.strip_suffix('*') { format!("{x}{rest}") } else if k.ends_with('/') { format!("{k}{rest}") } else { k.clone() };
                if kind { extra.push(Op::Resolve { r: 0, base: "$R".into(), req: format!("{n}{}", &q[1..]) }); } else { extra.push(Op::Resolve { r: 0, base: format!("$R/{d}"), req: q }); }
            }
        }
        g.r.shuffle(&mut extra);
    }
    // a package that maps names to another package, which its own folders have as well
    if g.r.p(if g.id == "C15" { 25 } else { 2 }) {
        let w = g.r.1.filter(|w| !w.is_empty() && w.len() < 60 && !w.contains(['/', '\\', '\0', '?']) && *w != "." && *w != "..");
        let top = match w { Some(w) if g.r.p(60) => w.to_string(), _ => g.r.s(&["src", "lib", "pk", "node_modules/pk", ""]) };
        let p = join(&top, "package.json");
        if !g.has(&p) && !g.w.dirs.contains(&p) {
            let n = g.r.s(&["p", "@s/q", "pp"]);
            let sub = g.r.s(&["", "", "/a.js", "/lib/a.js"]);
            let t = format!("{n}{sub}");
            let i = match g.r.n(4) { 0 => json!({"#x": t}), 1 => json!({"#x": {"node": t}}), 2 => json!({"#x": ["./missing", t]}), _ => json!({"#x": {"nope": "./a.js", "default": t}}) };
            g.add(p, &json!({"name": "self", "imports": i}).to_string());
            for l in ["", "lib", "a", "lib/src"] { if g.r.p(55) { let l = join(&join(&top, l), "node_modules"); g.ensure(&l, &format!("{n}/index.js")); if !sub.is_empty() { g.ensure(&l, &t); } } }
            if g.r.p(30) { g.ensure("node_modules", &format!("{n}/index.js")); }
            for l in ["", "lib", "a", "lib/src"] { if g.r.p(50) { extra.push(Op::Resolve { r: 0, base: if top.is_empty() && l.is_empty() { "$R".into() } else { format!("$R/{}", join(&top, l)) }, req: "#x".into() }); } }
        }
    }
    // other things that are found in a repository
    if g.r.p(if g.f.desc > 50 { 50 } else { 12 }) {
        for d in ["", "src", "lib", "node_modules/p"] {
            if g.r.p(50) { let n = g.r.s(&[".git", ".hg", "bower_components", "packages", ".pnpm"]); g.w.dirs.push(join(d, &n)); }
            if g.r.p(40) { let n = g.r.s(&["package-lock.json", "yarn.lock", "tsconfig.json", "jsconfig.json", "bower.json", "pnpm-workspace.yaml", ".npmrc", "package.json5", "index.d.ts", "lerna.json", ".git", "node_modules"]); let p = join(d, &n); if !g.w.dirs.contains(&p) && !(n == "node_modules" && g.w.dirs.iter().chain(g.w.files.iter().map(|f| &f.0)).any(|x| x.starts_with(&format!("{p}/")) || *x == p)) { g.add(p, "x"); } }
            if g.r.p(15) { let p = join(d, "package.json"); if !g.has(&p) { g.w.dirs.push(p); } }
        }
    }
    // a description above the packages themselves
    if g.r.p(g.f.desc / 4) { for l in LEVELS { if g.r.p(40) { let d = join(l, "node_modules"); let (v, rs) = g.desc(&d, "p"); for s in rs { if s.starts_with('#') { reqs.push((d.clone(), "p".into(), s)); } } let t = g.desc_text(&v); let p = join(&d, "package.json"); if !g.w.dirs.contains(&p) { g.add(p, &t); } } } }
    if g.r.p(g.f.ts) { g.ts_file("", "tsconfig.json", 0); }
    // links
    let nl = if g.r.p(g.f.links) { 1 + g.r.n(4) } else { 0 };
    for _ in 0..nl {
        let to = match g.r.n(7) { 6 => "/dev/null".into(), 0 => "$R/src".into(), 1 => "$R/lib".into(), 2 => "missing".into(), 3 => "..".into(), _ => { let f = g.some_rel_file(""); format!("$R/{f}") } };
        let d = g.r.s(&["", "src", "lib", "src/a", "node_modules"]);
        let n = match g.r.n(4) { 0 => g.r.s(&["ln", "p", "pp", "lib"]), 1 => g.file_name(), _ => g.r.s(&["ln.js", "a.js", "index.js", "é.js"]) };
        let p = join(&d, &n);
        if !g.has(&p) && !g.w.dirs.contains(&p) { g.w.links.push((p, to)); }
    }
    // resolvers
    let n = g.f.resolvers;
    let first = g.opts();
    g.w.res.push(first.clone());
    for _ in 1..n {
        let mut o = if g.r.p(60) { first.clone() } else { g.opts() };
        if g.id == "C18" && g.r.p(50) { o.browser = !o.browser; }
        o.desc = first.desc.clone();
        g.w.res.push(o);
    }
    if n > 1 { let s = g.r.p(80); for o in g.w.res.iter_mut() { o.shared = s; } }
    // one package folder seen through several texts of its path
    if g.r.p(match g.id.as_str() { "C18" => 25, "C16" | "C25" | "C19" => 8, _ => 1 }) {
        let d = g.r.s(&["src", "lib", "node_modules/p", "src/a", "kk"]);
        let p = join(&d, "package.json");
        if !g.has(&p) && !g.w.dirs.contains(&p) {
            let v = g.r.s(&[".", "./", "./index", "../a", "./."]);
            let mut m = json!({"browser": {"./x": v, "q": v}, "main": g.r.s(&["./a.js", ".", "./", "index.js"])});
            if g.r.p(50) { m["exports"] = json!({".": "./a.js"}); m["name"] = json!("p"); }
            if g.r.p(50) { m["imports"] = json!({"#x": "./a.js"}); }
            g.add(p, &m.to_string());
            for f in ["index.js", "a.js"] { if g.r.p(80) { g.ensure(&d, f); } }
            if g.r.p(80) { let (u, n) = match d.rfind('/') { Some(i) => (d[..i].to_string(), d[i + 1..].to_string()), None => (String::new(), d.clone()) }; g.ensure(&u, &format!("{n}.js")); }
            let n = g.w.res.len();
            for _ in 0..3 + g.r.n(4) {
                let r = g.r.n(n);
                let e = g.r.s(&["", "/", "/.", "/./", "//"]);
                let op = match g.r.n(7) {
                    0 => Op::Resolve { r, base: "$R".into(), req: format!("./{d}{e}") },
                    1 => Op::Side { r, path: format!("$R/{d}{e}") },
                    2 => Op::Resolve { r, base: format!("$R/{d}{e}"), req: g.r.s(&["#x", "p", ".", "./", "./a"]) },
                    _ => Op::Resolve { r, base: format!("$R/{d}{e}"), req: g.r.s(&["./x", "q"]) },
                };
                g.w.ops.push(op);
            }
            if g.r.p(70) { let o = &mut g.w.res; for x in o.iter_mut() { x.browser = true; } }
        }
    }
    // operations
    let bases = ["", "src", "src/a", "lib", "node_modules/p", "node_modules/@s/q", "src/node_modules/p", "node_modules/pp/lib", "src/é", "missing", "src/missing/x", "src/a/b", "node_modules", "node_modules/node_modules", "node_modules/node_modules/p"];
    let count = if n > 1 { 14 } else { 7 };
    for _ in 0..count {
        let r = g.r.n(g.w.res.len());
        let mut base = g.r.s(&bases);
        if g.r.p(5) { base = g.some_rel_file(""); }
        if g.r.p(if g.id == "C08" { 10 } else { 2 }) { base = join(&base, &g.r.s(&["my_node_modules", "node_modules.bak", "node_modules2/src"])); }
        if !reqs.is_empty() && g.r.p(35) {
            let (d, name, sub) = g.r.pick(&reqs).clone();
            if sub.starts_with('#') { let s = sub; let b = if g.r.p(80) { d } else { join(&d, "lib") }; let s = if g.r.p(g.f.query) { format!("{s}?q#f") } else { s }; g.w.ops.push(Op::Resolve { r, base: format!("$R/{b}"), req: s }); continue; }
            // from where that package is seen
            let at = d.find("node_modules").map(|_| d[..d.rfind("node_modules").unwrap()].trim_end_matches('/').to_string()).unwrap_or(d.clone());
            let b = if g.r.p(60) { at } else { base.clone() };
            let mut q = if sub == "." { name } else { format!("{name}{}", &sub[1..]) };
            if g.r.p(g.f.query) { q.push_str("?q"); }
            g.w.ops.push(Op::Resolve { r, base: if b.is_empty() { "$R".into() } else { format!("$R/{b}") }, req: q });
            continue;
        }
        let base_abs = if base.is_empty() { "$R".to_string() } else { format!("$R/{base}") };
        if g.r.p(g.f.side) {
            let p = if g.r.p(60) { let f = g.some_rel_file(""); format!("$R/{f}") } else { base_abs };
            let p = if g.r.p(15) { format!("{p}/x/../y") } else { p };
            g.w.ops.push(Op::Side { r, path: p });
        } else {
            let req = g.request(&base, &reqs);
            let base_abs = if g.r.p(g.f.dots / 4) { format!("{base_abs}/../{}", g.r.s(&["src", "lib", "."])) } else { base_abs };
            let base_abs = if g.r.p(4) { format!("{base_abs}{}", g.r.s(&["/", "/.", "//"])) } else { base_abs };
            g.w.ops.push(Op::Resolve { r, base: base_abs, req });
        }
    }
    g.w.ops.extend(extra);
    if g.f.edits > 0 { edits(&mut g); }
    if n > 1 { let k = g.w.ops.len(); for _ in 0..k { let o = g.w.ops[g.r.n(k)].clone(); if g.r.p(60) { g.w.ops.push(o); } } }
    g.w.par = g.r.p(g.f.par);
    if g.id == "C22" && g.r.p(25) { g.w.panics_only = true; garbage(&mut g); }
    g.w
}

/// descriptions edited between the queries
fn edits(g: &mut G) {
    let descs: Vec<(String, String)> = g.w.files.iter().filter(|f| f.0.ends_with("package.json") && !f.0.split('/').any(|s| s.is_empty() || s == "." || s == "..")).cloned().collect();
    if descs.is_empty() { return; }
    if g.r.p(40) { return plain_edits(g, descs); }
    let queries = g.w.ops.clone();
    let mut ops = vec![];
    let mut times: std::collections::HashMap<String, Vec<i64>> = Default::default();
    for _ in 0..4 {
        let q: Vec<Op> = (0..3).map(|_| g.r.pick(&queries).clone()).collect();
        ops.extend(q.clone());
        let (p, _) = g.r.pick(&descs).clone();
        let d = p.strip_suffix("package.json").unwrap().trim_end_matches('/').to_string();
        ops.push(Op::Side { r: 0, path: if d.is_empty() { "$R".into() } else { format!("$R/{d}") } });
        let (v, _) = g.desc(&d, "p");
        let text = if g.r.p(15) { g.r.s(&["{", "", "[]", "{\"sideEffects\": 3}", "{\"exports\": {\"./a\": 1, \"b\": 2}}"]) } else { v.to_string() };
        // a rewrite within a second of any content that may still be kept need not be seen (the file is kept
        // once per spelling of its path, so every earlier content counts)
        let before = times.entry(p.clone()).or_insert(vec![0]);
        let mut now = *before.last().unwrap() + *g.r.pick(&[1000i64, 1001, 1500, 2000, 60_000, -1, -500, -1000, -5000, -3_600_000]);
        while before.iter().any(|&m| m <= now && now < m + 1000) { now += 1000; }
        before.push(now);
        ops.push(Op::Write { path: p, text, ms: now, fuzzy: false });
        ops.push(Op::Side { r: 0, path: if d.is_empty() { "$R".into() } else { format!("$R/{d}") } });
        if g.r.p(50) { ops.push(Op::Side { r: 0, path: if d.is_empty() { "$R".into() } else { format!("$R/{d}") } }); }
        ops.extend(q);
    }
    g.w.ops = ops;
}

/// one or two descriptions, asked for under one spelling only, going back and forth between few modification
/// times: each edit counts from the time of the edit before it
fn plain_edits(g: &mut G, descs: Vec<(String, String)>) {
    g.w.links.clear();
    let mut ops = vec![];
    let mut last: std::collections::HashMap<String, i64> = Default::default();
    let dir = |p: &str| { let d = p.strip_suffix("package.json").unwrap().trim_end_matches('/'); if d.is_empty() { "$R".to_string() } else { format!("$R/{d}") } };
    let some: Vec<String> = (0..1 + g.r.n(2)).map(|_| g.r.pick(&descs).0.clone()).collect();
    let pool = [0i64, 1000, 5000, -3000, 60_000, 999];
    for p in &some { if g.r.p(85) { ops.push(Op::Side { r: 0, path: dir(p) }); } }
    for _ in 0..7 {
        let p = g.r.pick(&some).clone();
        let d = p.strip_suffix("package.json").unwrap().trim_end_matches('/').to_string();
        let text = if g.r.p(8) { g.r.s(&["{", "", "[]", "{\"sideEffects\": 3}"]) } else { let v = g.side_value(); json!({"sideEffects": v, "name": d}).to_string() };
        let was = *last.get(&p).unwrap_or(&0);
        let now = *g.r.pick(&pool);
        if was <= now && now < was + 1000 { continue; }
        last.insert(p.clone(), now);
        ops.push(Op::Write { path: p.clone(), text, ms: now, fuzzy: false });
        for _ in 0..1 + g.r.n(2) { ops.push(Op::Side { r: 0, path: dir(&p) }); }
        if g.r.p(30) { let p = g.r.pick(&some).clone(); ops.push(Op::Side { r: 0, path: dir(&p) }); }
    }
    g.w.ops = ops;
}

fn paths_only(g: &mut G) -> World {
    let mut w = World { res: vec![g.opts()], ..Default::default() };
    for _ in 0..12 {
        let n = g.r.n(9);
        let mut s = String::new();
        if g.r.p(60) { s.push('/'); }
        for _ in 0..n { s.push_str(&g.r.s(&["a", "b", "..", ".", "..", "é", "...", "..a", "", "a b", " ", ".a", "a.", "c:", "\\"])); if g.r.p(95) { s.push('/'); } }
        w.ops.push(Op::Normalize { path: s });
    }
    w
}

/// names of built-in modules, and names like them
fn names_only(g: &mut G, i: u64) -> World {
    let mut w = World { res: vec![g.opts()], ..Default::default() };
    let all = model::BUILT_IN;
    for k in 0..20u64 {
        let mut s = all[((i * 20 + k) % all.len() as u64) as usize].to_string();
        for _ in 0..g.r.n(3) {
            s = match g.r.n(14) {
                0 => s.to_uppercase(),
                1 => { let mut c = s.chars(); match c.next() { Some(x) => x.to_uppercase().collect::<String>() + c.as_str(), None => s } }
                2 => format!("node:{s}"),
                3 => format!("{s}/"),
                4 => format!("{s}/{}", g.r.s(&["x", "promises", "strict", "posix", "types", "web"])),
                5 => { s.pop(); s }
                6 => format!("{s}{}", g.r.s(&["s", "2", " ", ".js", "_", "?", "\0"])),
                7 => format!("{}{s}", g.r.s(&["_", " ", "./", "/", "#", "@"])),
                8 => s.split('/').next().unwrap_or("").to_string(),
                9 => s.split('/').last().unwrap_or("").to_string(),
                10 => s.replace('_', "-"),
                11 => s.replace('/', ","),
                12 => format!("{},{}", s, all[g.r.n(all.len())]),
                _ => s.trim_start_matches('_').to_string(),
            };
        }
        w.ops.push(Op::BuiltIn { name: s });
    }
    w
}

/// long chains and cycles in finite maps, deep directories
fn chains(g: &mut G) -> World {
    let mut w = World::default();
    let n = 2 + g.r.n(12);
    let mut m = Map::new();
    let names: Vec<String> = (0..n).map(|i| if g.r.p(50) { format!("m{i}") } else { format!("./f{i}.js") }).collect();
    for i in 0..n { let j = if g.r.p(70) { (i + 1) % n } else { g.r.n(n) }; m.insert(names[i].clone(), json!(names[j])); }
    let mut cond = json!("./f0.js");
    for i in 0..g.r.n(30) { cond = json!({ "x": {"import": cond.clone()}, (if i % 2 == 0 { "node" } else { "y" }): cond, "default": {"import": "./f1.js"} }); if cond.to_string().len() > 4000 { break; } }
    let d = json!({"name": "root", "browser": m, "exports": {".": cond.clone(), "./a": cond.clone()}, "imports": {"#a": cond}, "main": "./f0.js"});
    let at = g.r.s(&["", "node_modules/p", "d/d/d/d/d/d/d/d"]);
    w.files.push((join(&at, "package.json"), d.to_string()));
    for i in 0..n { w.files.push((join(&at, &format!("f{i}.js")), "x".into())); }
    let mut o = g.opts();
    o.browser = true;
    o.prefer = false;
    o.alias = vec![];
    o.tsconfig = None;
    w.res.push(o);
    let base = if at.is_empty() { "$R".to_string() } else { format!("$R/{at}") };
    for _ in 0..6 {
        let q = match g.r.n(5) { 0 => "#a".into(), 1 => "p".into(), 2 => "p/a".into(), _ => g.r.pick(&names).clone() };
        let b = if g.r.p(50) { base.clone() } else { "$R".into() };
        w.ops.push(Op::Resolve { r: 0, base: b, req: q });
        w.ops.push(Op::Side { r: 0, path: format!("{base}/x/y/../z") });
    }
    w
}

/// arbitrary JSON and arbitrary strings everywhere
fn garbage(g: &mut G) {
    fn any(g: &mut G, d: usize) -> Value {
        match g.r.n(if d == 0 { 6 } else { 9 }) {
            0 => Value::Null, 1 => json!(g.r.p(50)), 2 => json!(-1.5e300), 3 | 4 | 5 => json!(word(g)),
            6 => { let n = g.r.n(4); Value::Array((0..n).map(|_| any(g, d - 1)).collect()) }
            _ => { let n = g.r.n(4); let mut m = Map::new(); for _ in 0..n { let k = word(g); let v = any(g, d - 1); m.insert(k, v); } Value::Object(m) }
        }
    }
    fn word(g: &mut G) -> String { let n = g.r.n(6); let mut s = String::new(); for _ in 0..n { s.push_str(&g.r.s(&[".", "/", "a", "#", "?", "@", "*", "é", "😀", "..", "./", "default", "node", "p", "\\", ":", "\0", " "])); } s }
    let n = g.w.files.len();
    for i in 0..n {
        if g.w.files[i].0.ends_with(".json") && g.r.p(60) {
            let mut m = Map::new();
            for k in ["name", "main", "exports", "imports", "browser", "sideEffects", "version", "compilerOptions", "extends"] { if g.r.p(50) { let v = any(g, 3); m.insert(k.into(), v); } }
            if m.contains_key("compilerOptions") { m.insert("compilerOptions".into(), json!({"baseUrl": any(g, 0), "paths": any(g, 3)})); }
            m.shift_remove("extends");
            g.w.files[i].1 = Value::Object(m).to_string();
        }
    }
    for k in 0..g.w.ops.len() { if g.r.p(60) { let s = word(g); match &mut g.w.ops[k] { Op::Resolve { req, .. } => *req = s, Op::Side { path, .. } => if s.len() % 2 == 0 { *path = s }, _ => {} } } }
    for k in 0..g.w.res.len() { if g.r.p(30) { let e = word(g); g.w.res[k].ext.push(e); } if g.r.p(20) { let e = word(g); g.w.res[k].main_files.push(e); } if g.r.p(20) { let e = word(g); g.w.res[k].main_fields.push(e); } }
}
