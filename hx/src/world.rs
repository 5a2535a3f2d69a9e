//! A world: a small file tree, resolvers with options, and a history of operations. Strings use `$R`
//! for the scratch directory. Worlds are plain JSON so that a failing one can be replayed.
use crate::model::Opts;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

#[derive(Clone, Debug)]
pub enum Op {
    Resolve { r: usize, base: String, req: String },
    Side { r: usize, path: String },
    /// replace a file; mtime in ms relative to the start of the world. `fuzzy`: this edit need not be seen yet
    Write { path: String, text: String, ms: i64, fuzzy: bool },
    Normalize { path: String },
    BuiltIn { name: String },
}
#[derive(Clone, Debug, Default)]
pub struct World {
    pub dirs: Vec<String>,
    pub files: Vec<(String, String)>,
    pub links: Vec<(String, String)>,
    pub res: Vec<Opts>,
    pub ops: Vec<Op>,
    /// run the operations on several threads at once
    pub par: bool,
    /// only look for panics
    pub panics_only: bool,
}

fn strs(v: &[String]) -> Value { json!(v) }
fn to_strs(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() }
fn st(v: &Value) -> String { v.as_str().unwrap_or("").to_string() }

impl World {
    pub fn to_json(&self) -> Value {
        json!({
            "dirs": strs(&self.dirs),
            "files": self.files.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(),
            "links": self.links.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(),
            "resolvers": self.res.iter().map(|o| json!({
                "extensions": o.ext, "enforce_extension": o.enforce, "alias": o.alias.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
                "prefer_relative": o.prefer, "shared_cache": o.shared, "symlinks": o.symlinks, "description_file": o.desc,
                "main_files": o.main_files, "main_fields": o.main_fields, "browser_field": o.browser, "condition_names": o.conds, "tsconfig": o.tsconfig })).collect::<Vec<_>>(),
            "ops": self.ops.iter().map(|o| match o {
                Op::Resolve { r, base, req } => json!({"op": "resolve", "resolver": r, "base": base, "request": req}),
                Op::Side { r, path } => json!({"op": "side_effects", "resolver": r, "path": path}),
                Op::Write { path, text, ms, fuzzy } => json!({"op": "write", "path": path, "text": text, "mtime_ms": ms, "fuzzy": fuzzy}),
                Op::Normalize { path } => json!({"op": "normalize", "path": path}), Op::BuiltIn { name } => json!({"op": "built_in", "name": name}) }).collect::<Vec<_>>(),
            "parallel": self.par, "panics_only": self.panics_only })
    }
    pub fn from_json(v: &Value) -> World {
        let pair = |x: &Value| (st(&x[0]), st(&x[1]));
        World {
            dirs: to_strs(&v["dirs"]),
            files: v["files"].as_array().unwrap().iter().map(pair).collect(),
            links: v["links"].as_array().unwrap().iter().map(pair).collect(),
            res: v["resolvers"].as_array().unwrap().iter().map(|o| Opts {
                ext: to_strs(&o["extensions"]), enforce: o["enforce_extension"].as_bool(),
                alias: o["alias"].as_array().unwrap().iter().map(|x| (st(&x[0]), x[1].as_str().map(String::from))).collect(),
                prefer: o["prefer_relative"] == json!(true), shared: o["shared_cache"] == json!(true), symlinks: o["symlinks"] == json!(true),
                desc: o["description_file"].as_str().map(String::from), main_files: to_strs(&o["main_files"]), main_fields: to_strs(&o["main_fields"]),
                browser: o["browser_field"] == json!(true), conds: to_strs(&o["condition_names"]), tsconfig: o["tsconfig"].as_str().map(String::from) }).collect(),
            ops: v["ops"].as_array().unwrap().iter().map(|o| match o["op"].as_str().unwrap() {
                "resolve" => Op::Resolve { r: o["resolver"].as_u64().unwrap() as usize, base: st(&o["base"]), req: st(&o["request"]) },
                "side_effects" => Op::Side { r: o["resolver"].as_u64().unwrap() as usize, path: st(&o["path"]) },
                "write" => Op::Write { path: st(&o["path"]), text: st(&o["text"]), ms: o["mtime_ms"].as_i64().unwrap(), fuzzy: o["fuzzy"] == json!(true) },
                "built_in" => Op::BuiltIn { name: st(&o["name"]) },
                _ => Op::Normalize { path: st(&o["path"]) } }).collect(),
            par: v["parallel"] == json!(true),
            panics_only: v["panics_only"] == json!(true),
        }
    }
    /// create the files under `root` (which must not exist yet); entries that cannot be created are left out
    pub fn build(&self, root: &Path) {
        let _ = std::fs::remove_dir_all(root);
        std::fs::create_dir_all(root).unwrap();
        let base = start();
        for d in &self.dirs { if let Some(p) = inside(root, d) { let _ = std::fs::create_dir_all(p); } }
        for (f, text) in &self.files {
            let Some(p) = inside(root, f) else { continue };
            if let Some(d) = p.parent() { let _ = std::fs::create_dir_all(d); }
            write(&p, &sub(root, text), base);
        }
        for (l, t) in &self.links {
            let Some(p) = inside(root, l) else { continue };
            if let Some(d) = p.parent() { let _ = std::fs::create_dir_all(d); }
            let _ = std::os::unix::fs::symlink(sub(root, t), &p);
        }
    }
}
pub fn start() -> SystemTime { SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000) }
pub fn sub(root: &Path, s: &str) -> String { s.replace("$R", root.to_str().unwrap()) }
/// the place of an entry; entries that would lie outside are left out
fn inside(root: &Path, p: &str) -> Option<PathBuf> {
    if p.split('/').any(|c| c == "..") || p.starts_with('/') { None } else { Some(root.join(p)) }
}
pub fn write(p: &Path, text: &str, t: SystemTime) {
    if std::fs::write(p, text).is_ok() {
        if let Ok(f) = std::fs::File::options().write(true).open(p) { let _ = f.set_modified(t); }
    }
}
pub fn write_ms(root: &Path, p: &str, text: &str, ms: i64) {
    let t = if ms >= 0 { start() + Duration::from_millis(ms as u64) } else { start() - Duration::from_millis((-ms) as u64) };
    let Some(p) = inside(root, p) else { return };
    if p.is_file() { write(&p, &sub(root, text), t); }
}
