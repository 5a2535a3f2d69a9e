//! hx run ID SECONDS SEED OUT    search for a world on which /repo and the reference model differ
//! hx replay FILE                 run one world, print both results, exit 1 if they differ
pub mod gen;
pub mod model;
pub mod rt;
pub mod ext;
pub mod words;
pub mod world;
use model::{Fail, Model, Out};
use nodejs_resolver::{AliasMap, ResolveResult, Resolver, ResolverCache, ResolverOptions, SideEffects};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::{Duration, Instant};
use world::{sub, Op, World};

fn build(root: &Path, o: &model::Opts, shared: &Arc<ResolverCache>) -> Resolver {
    let opts = ResolverOptions {
        extensions: o.ext.clone(), enforce_extension: o.enforce,
        alias: o.alias.iter().map(|(k, v)| (k.clone(), match v { Some(t) => AliasMap::Target(t.clone()), None => AliasMap::Ignored })).collect(),
        prefer_relative: o.prefer, external_cache: if o.shared { Some(shared.clone()) } else { None }, symlinks: o.symlinks,
        description_file: o.desc.clone(), main_files: o.main_files.clone(), main_fields: o.main_fields.clone(), browser_field: o.browser,
        condition_names: o.conds.iter().cloned().collect::<HashSet<_>>(), tsconfig: o.tsconfig.clone().map(PathBuf::from),
    };
    let _ = root;
    Resolver::new(opts)
}
fn sub_opts(root: &Path, o: &model::Opts) -> model::Opts {
    let mut o = o.clone();
    for a in o.alias.iter_mut() { a.0 = sub(root, &a.0); a.1 = a.1.as_ref().map(|t| sub(root, t)); }
    o.tsconfig = o.tsconfig.as_ref().map(|t| sub(root, t));
    o
}

#[derive(Debug, Clone)]
struct Diff { op: usize, what: String, expected: String, actual: String, kind: &'static str }

fn show(o: &Out) -> String {
    match o {
        Out::File { path, query, fragment } => format!("file {} query {query:?} fragment {fragment:?}", path.display()),
        Out::Ignored => "ignored".into(),
        Out::Fail(Fail::Message(m)) => format!("error {m:?}"),
        Out::Fail(_) => "a specific error".into(),
    }
}
fn panic_text(e: Box<dyn std::any::Any + Send>) -> String { e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default() }

/// what the real code returns for one resolution: (comparable result, printable)
fn real_resolve(r: &Resolver, base: &str, req: &str) -> Result<Result<ResolveResult, String>, String> {
    catch_unwind(AssertUnwindSafe(|| r.resolve(Path::new(base), req))).map_err(panic_text)
}
fn is_generic(m: &str) -> bool { m == "T0" || (m.starts_with("Resolve '") && m.contains("' failed in '")) }

fn compare(exp: &Out, got: &Result<Result<ResolveResult, String>, String>) -> Option<(String, &'static str)> {
    match got {
        Err(p) => Some((format!("panic: {p}"), "panic")),
        Ok(Ok(ResolveResult::Info(i))) => {
            let text = format!("file {} query {:?} fragment {:?}{}", i.path.display(), i.request.query.as_str(), i.request.fragment.as_str(), if i.request.target.is_empty() { String::new() } else { format!(" target {:?}", i.request.target.as_str()) });
            match exp {
                Out::File { path, query, fragment } if path.as_os_str() == i.path.as_os_str() && query.as_str() == i.request.query.as_str() && fragment.as_str() == i.request.fragment.as_str() && i.request.target.is_empty() => {
                    if let Ok(j) = catch_unwind(AssertUnwindSafe(|| i.join())) { if j.as_os_str().to_str() != Some(&format!("{}{query}{fragment}", path.display())) { return Some((format!("join() = {}", j.display()), "value")); } }
                    None
                }
                _ => Some((text, "value")),
            }
        }
        Ok(Ok(ResolveResult::Ignored)) => if *exp == Out::Ignored { None } else { Some(("ignored".into(), "value")) },
        Ok(Err(m)) => match exp {
            Out::Fail(Fail::Message(e)) if e == m => None,
            Out::Fail(Fail::Message(_)) => Some((format!("error {m:?}"), "message")),
            Out::Fail(_) if !is_generic(m) => None,
            Out::Fail(_) => Some((format!("error {m:?}"), "message")),
            _ => Some((format!("error {m:?}"), "value")),
        },
    }
}
fn side_json(s: &Option<SideEffects>) -> Option<Value> { match s { None => None, Some(SideEffects::Bool(b)) => Some(json!(b)), Some(SideEffects::Array(a)) => Some(json!(a)) } }

fn side(o: &model::Opts, r: &Resolver, path: &str) -> Option<Diff> {
    let m = Model::new(o);
    let exp = m.side_effects(Path::new(path));
    let got = catch_unwind(AssertUnwindSafe(|| r.load_side_effects(Path::new(path)))).map_err(panic_text);
    let es = match &exp { Ok(Some((p, v))) => format!("{} {:?}", p.display(), v), Ok(None) => "none".into(), Err(_) => "an error".into() };
    let (gs, same, kind) = match &got {
        Err(p) => (format!("panic: {p}"), false, "panic"),
        Ok(Ok(None)) => ("none".into(), matches!(exp, Ok(None)), "value"),
        Ok(Ok(Some((p, s)))) => { let v = side_json(s); (format!("{} {:?}", p.display(), v), matches!(&exp, Ok(Some((ep, ev))) if ep == p && *ev == v), "value") }
        Ok(Err(m)) => (format!("error {m:?}"), exp.is_err() && m != "T0", "value"),
    };
    if same { None } else { Some(Diff { op: 0, what: format!("load_side_effects({path})"), expected: es, actual: gs, kind }) }
}

fn one(root: &Path, i: usize, op: &Op, res: &[Resolver], opts: &[model::Opts], panics_only: bool, st: &mut Stats) -> Option<Diff> {
    match op {
        Op::Resolve { r, base, req } => {
            let (base, req) = (sub(root, base), sub(root, req));
            let m = Model::new(&opts[*r]);
            let exp = m.resolve(Path::new(&base), &req);
            if exp == Out::Fail(Fail::Endless) { st.skipped += 1; return None; }
            let got = real_resolve(&res[*r], &base, &req);
            st.evals += 1;
            match &exp { Out::File { .. } => st.found += 1, Out::Ignored => st.ignored += 1, Out::Fail(Fail::Reason) => st.reasons += 1, _ => st.failed += 1 }
            if m.steps.get() > 1 { st.multi += 1; }
            if panics_only { return got.err().map(|p| Diff { op: i, what: format!("resolve({base:?}, {req:?})"), expected: "no panic".into(), actual: p, kind: "panic" }); }
            compare(&exp, &got).map(|(a, kind)| Diff { op: i, what: format!("resolve({base:?}, {req:?})"), expected: show(&exp), actual: a, kind })
        }
        Op::Side { r, path } => {
            let path = sub(root, path);
            st.evals += 1;
            st.sides += 1;
            if panics_only { return catch_unwind(AssertUnwindSafe(|| { let _ = res[*r].load_side_effects(Path::new(&path)); })).err().map(|p| Diff { op: i, what: format!("load_side_effects({path:?})"), expected: "no panic".into(), actual: panic_text(p), kind: "panic" }); }
            side(&opts[*r], &res[*r], &path).map(|mut d| { d.op = i; d })
        }
        Op::Write { path, text, ms, .. } => { world::write_ms(root, path, text, *ms); None }
        Op::BuiltIn { name } => {
            st.evals += 1;
            let e = model::BUILT_IN.contains(&name.as_str());
            if e { st.found += 1; } else { st.failed += 1; }
            let g = catch_unwind(|| Resolver::is_build_in_module(name)).map_err(panic_text);
            if g == Ok(e) { None } else { Some(Diff { op: i, what: format!("is_build_in_module({name:?})"), expected: e.to_string(), actual: format!("{g:?}"), kind: "value" }) }
        }
        Op::Normalize { path } => {
            st.evals += 1;
            st.found += 1;
            let e = model::lexical(Path::new(path));
            let g = catch_unwind(|| Resolver::normalize_path_without_link(Path::new(path))).map_err(panic_text);
            match g {
                Ok(g) if g.as_os_str() == e.as_os_str() => None,
                Ok(g) => Some(Diff { op: i, what: format!("normalize_path_without_link({path:?})"), expected: e.display().to_string(), actual: g.display().to_string(), kind: "value" }),
                Err(p) => Some(Diff { op: i, what: format!("normalize_path_without_link({path:?})"), expected: e.display().to_string(), actual: format!("panic: {p}"), kind: "panic" }),
            }
        }
    }
}

#[derive(Default, Clone, Debug)]
struct Stats { worlds: u64, evals: u64, found: u64, ignored: u64, failed: u64, reasons: u64, sides: u64, multi: u64, skipped: u64, distinct: u64 }

/// options are taken as given
fn options_kept(o: &model::Opts, r: &Resolver, shared: &Arc<ResolverCache>) -> Option<String> {
    let g = &r.options;
    let alias: Vec<(String, Option<String>)> = g.alias.iter().map(|(k, v)| (k.clone(), match v { AliasMap::Target(t) => Some(t.clone()), AliasMap::Ignored => None })).collect();
    let want = Some(o.enforce.unwrap_or_else(|| o.ext.iter().any(|e| e.is_empty())));
    let mut bad = vec![];
    if g.enforce_extension != want { bad.push(format!("enforce_extension {:?} instead of {want:?}", g.enforce_extension)); }
    if g.extensions != o.ext { bad.push(format!("extensions {:?}", g.extensions)); }
    if alias != o.alias { bad.push("alias".into()); }
    if g.prefer_relative != o.prefer { bad.push("prefer_relative".into()); }
    if g.symlinks != o.symlinks { bad.push("symlinks".into()); }
    if g.description_file != o.desc { bad.push("description_file".into()); }
    if g.main_files != o.main_files { bad.push("main_files".into()); }
    if g.main_fields != o.main_fields { bad.push("main_fields".into()); }
    if g.browser_field != o.browser { bad.push("browser_field".into()); }
    if g.condition_names != o.conds.iter().cloned().collect::<HashSet<_>>() { bad.push("condition_names".into()); }
    if g.tsconfig != o.tsconfig.clone().map(PathBuf::from) { bad.push("tsconfig".into()); }
    match &g.external_cache { Some(c) if o.shared && Arc::ptr_eq(c, shared) => {} None if !o.shared => {} _ => bad.push("external_cache".into()) }
    if bad.is_empty() { None } else { Some(bad.join(", ")) }
}

fn run_world(w: &World, root: &Path, st: &mut Stats) -> Option<Diff> {
    w.build(root);
    st.worlds += 1;
    let opts: Vec<model::Opts> = w.res.iter().map(|o| sub_opts(root, o)).collect();
    let shared = Arc::new(ResolverCache::default());
    let res: Vec<Resolver> = opts.iter().map(|o| build(root, o, &shared)).collect();
    for (o, r) in opts.iter().zip(&res) {
        if let Some(b) = options_kept(o, r, &shared) { return Some(Diff { op: 0, what: "Resolver::new(options).options".into(), expected: "the given options".into(), actual: b, kind: "options" }); }
    }
    if w.par {
        let n = w.ops.len();
        let diffs: Vec<Option<Diff>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3usize).map(|t| { let (res, opts) = (&res, &opts); s.spawn(move || {
                let mut st = Stats::default();
                for k in 0..n { let i = (k * 7 + t * 3) % n; if let Op::Write { .. } = w.ops[i] { continue; } if let Some(d) = one(root, i, &w.ops[i], res, opts, w.panics_only, &mut st) { return (Some(d), st); } }
                (None, st) }) }).collect();
            hs.into_iter().map(|h| { let (d, s2) = h.join().unwrap(); st.evals += s2.evals; st.found += s2.found; st.failed += s2.failed; st.reasons += s2.reasons; st.sides += s2.sides; st.ignored += s2.ignored; st.multi += s2.multi; d }).collect()
        });
        return diffs.into_iter().flatten().next();
    }
    // a pending fuzzy edit makes results on that file open
    let mut used: Vec<bool> = vec![false; res.len()];
    for (i, op) in w.ops.iter().enumerate() {
        if let Some(d) = one(root, i, op, &res, &opts, w.panics_only, st) { return Some(d); }
        match op { Op::Resolve { r, .. } | Op::Side { r, .. } => used[*r] = true, _ => {} }
    }
    // what one resolver read is in the cache it was given (and only there)
    if opts.iter().any(|o| o.desc.is_some()) {
        let any = w.ops.iter().any(|op| match op { Op::Side { r, path } => opts[*r].shared && opts[*r].desc.is_some() && matches!(Model::new(&opts[*r]).side_effects(Path::new(&sub(root, path))), Ok(Some(_))), _ => false });
        if any && shared.file_dir_to_pkg_info.is_empty() { return Some(Diff { op: 0, what: "the given external cache".into(), expected: "descriptions read are in it".into(), actual: "empty".into(), kind: "cache" }); }
    }
    None
}

fn shrink(w: &World, root: &Path, kind: &'static str) -> World {
    let start = Instant::now();
    let still = |w: &World| -> bool { if start.elapsed() > Duration::from_secs(20) { return false; } let n = if w.par { 6 } else { 1 }; (0..n).any(|_| matches!(run_world(w, root, &mut Stats::default()), Some(d) if d.kind == kind)) };
    let mut w = w.clone();
    let mut changed = true;
    while changed && start.elapsed() < Duration::from_secs(20) {
        changed = false;
        macro_rules! drop_each { ($f:ident) => { let mut i = w.$f.len(); while i > 0 { i -= 1; if i >= w.$f.len() { continue; } let mut x = w.clone(); x.$f.remove(i); if still(&x) { w = x; changed = true; } } } }
        if !w.ops.iter().any(|o| matches!(o, Op::Write { .. })) { drop_each!(ops); }
        drop_each!(files);
        drop_each!(links);
        drop_each!(dirs);
        if w.par { let mut x = w.clone(); x.par = false; if still(&x) { w = x; changed = true; } }
        for k in 0..w.res.len() {
            let try_ = |w: &mut World, f: &dyn Fn(&mut model::Opts)| -> bool { let before = format!("{:?}", w.res[k]); let mut x = w.clone(); f(&mut x.res[k]); if format!("{:?}", x.res[k]) != before && still(&x) { *w = x; true } else { false } };
            changed |= try_(&mut w, &|o| o.prefer = false);
            changed |= try_(&mut w, &|o| o.browser = false);
            changed |= try_(&mut w, &|o| o.tsconfig = None);
            changed |= try_(&mut w, &|o| o.alias = vec![]);
            changed |= try_(&mut w, &|o| o.symlinks = false);
            changed |= try_(&mut w, &|o| o.enforce = None);
            changed |= try_(&mut w, &|o| o.ext = vec![".js".into()]);
            changed |= try_(&mut w, &|o| o.main_fields = vec!["main".into()]);
            changed |= try_(&mut w, &|o| o.main_files = vec!["index".into()]);
            for a in (0..w.res[k].alias.len()).rev() { changed |= try_(&mut w, &|o| { if a < o.alias.len() { o.alias.remove(a); } }); }
        }
    }
    w
}

fn report(id: &str, w: &World, d: &Diff, root: &Path) -> Value {
    let clean = |s: &str| s.replace(root.to_str().unwrap(), "$R");
    json!({"property": id, "operation": clean(&d.what), "expected": clean(&d.expected), "actual": clean(&d.actual), "kind": d.kind, "op_index": d.op, "world": w.to_json()})
}

/// scratch directories: nothing above them may hold a description file or node_modules
fn scratch() -> PathBuf {
    for b in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(b).join(format!("hx-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() {
            let p = std::fs::canonicalize(p).unwrap();
            let clean = p.ancestors().skip(1).all(|a| ["package.json", "node_modules", "desc.json"].iter().all(|n| !a.join(n).exists()));
            if clean { return p; }
            let _ = std::fs::remove_dir_all(&p);
        }
    }
    panic!("no scratch directory")
}

pub fn main_() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "run" => run(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        "worker" => worker(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), Path::new(&a[7])),
        "literals" => { let (w, n) = words::all(); for x in w { println!("{}", serde_json::to_string(&x).unwrap()); } for x in n { println!("\"{x}\""); } }
        "case" => { println!("{}", serde_json::to_string_pretty(&gen::world(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()).to_json()).unwrap()) }
        "replay" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let w = World::from_json(v.get("world").unwrap_or(&v));
            let s = scratch();
            let root = s.join("w");
            let mut bad = false;
            for _ in 0..if w.par { 200 } else { 1 } {
                if let Some(d) = run_world(&w, &root, &mut Stats::default()) { println!("{}", serde_json::to_string_pretty(&report("", &w, &d, &root)).unwrap()); bad = true; break; }
            }
            if a.len() > 3 {
                let opts: Vec<model::Opts> = w.res.iter().map(|o| sub_opts(&root, o)).collect();
                for op in &w.ops { if let Op::Resolve { r, base, req } = op { println!("{base} {req} -> {}", show(&Model::new(&opts[*r]).resolve(Path::new(&sub(&root, base)), &sub(&root, req)))); } }
            }
            let _ = std::fs::remove_dir_all(&s);
            if !bad { println!("no difference"); }
            std::process::exit(if bad { 1 } else { 0 });
        }
        _ => panic!("usage"),
    }
}

/// cases first, first+step, ...; the number of the case under way is kept in a file, so that a crash or
/// hang can be traced to its world
fn worker(id: &str, secs: f64, seed: u64, first: u64, step: u64, dir: &Path) {
    use std::os::unix::fs::FileExt;
    let slot = std::fs::File::create(dir.join(format!("slot-{first}"))).unwrap();
    let root = dir.join(format!("w{first}"));
    let start = Instant::now();
    let mut st = Stats::default();
    let mut i = first;
    let child = std::thread::Builder::new().stack_size(64 << 20);
    let (id, dir) = (id.to_string(), dir.to_path_buf());
    let h = child.spawn(move || {
        let mut seen: std::collections::HashSet<u64> = Default::default();
        while start.elapsed().as_secs_f64() < secs {
            slot.write_all_at(&i.to_le_bytes(), 0).unwrap();
            let w = gen::world(&id, seed, i);
            let h = { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); w.to_json().to_string().hash(&mut h); h.finish() };
            let before = st.found + st.ignored + st.reasons + st.multi + st.sides;
            let first_time = seen.insert(h);
            let d = run_world(&w, &root, &mut st);
            if first_time && st.found + st.ignored + st.reasons + st.multi + st.sides > before { st.distinct += 1; }
            if let Some(d) = d {
                // an unrelated disturbance would not happen twice
                let again = (0..if w.par { 40 } else { 1 }).find_map(|_| run_world(&w, &root, &mut Stats::default()));
                if let Some(_) = again {
                    let small = shrink(&w, &root, d.kind);
                    let d2 = (0..if small.par { 100 } else { 1 }).find_map(|_| run_world(&small, &root, &mut Stats::default()));
                    let (w, d) = match d2 { Some(d2) => (small, d2), None => (w, d) };
                    std::fs::write(dir.join(format!("diff-{first}")), serde_json::to_string_pretty(&report(&id, &w, &d, &root)).unwrap()).unwrap();
                    break;
                }
            }
            i += step;
        }
        let s = json!({"worlds": st.worlds, "evaluations": st.evals, "found": st.found, "ignored": st.ignored, "not_found": st.failed, "specific_errors": st.reasons, "side_effects_queries": st.sides, "more_than_one_lookup": st.multi, "skipped_endless": st.skipped, "distinct_nontrivial": st.distinct});
        std::fs::write(dir.join(format!("stats-{first}")), s.to_string()).unwrap();
    }).unwrap();
    let _ = h.join();
}

fn run(id: &str, secs: f64, seed: u64, out: &str) {
    let dir = scratch();
    let n: u64 = std::env::var("HX_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let me = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, std::process::Child, Instant, u64)> = (0..n).map(|k| (k, std::process::Command::new(&me).args(["worker", id, &secs.to_string(), &seed.to_string(), &k.to_string(), &n.to_string(), dir.to_str().unwrap()]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap(), Instant::now(), u64::MAX)).collect();
    let mut result: Option<Value> = None;
    let slot = |k: u64| -> u64 { std::fs::read(dir.join(format!("slot-{k}"))).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(u64::MAX - 1) };
    let start = Instant::now();
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(50));
        let mut i = 0;
        while i < kids.len() {
            let (k, c, seen, last) = &mut kids[i];
            let cur = slot(*k);
            if cur != *last { *last = cur; *seen = Instant::now(); }
            match c.try_wait().unwrap() {
                Some(s) => {
                    if !s.success() && result.is_none() && cur < u64::MAX - 1 {
                        let w = gen::world(id, seed, cur);
                        result = Some(json!({"property": id, "operation": "one of the operations of the world", "expected": "a result", "actual": format!("the process ended: {s}"), "kind": "crash", "world": w.to_json()}));
                    }
                    kids.remove(i);
                    continue;
                }
                None if seen.elapsed() > Duration::from_secs(45) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    if result.is_none() && !dir.join(format!("diff-{k}")).exists() {
                        let w = gen::world(id, seed, cur);
                        result = Some(json!({"property": id, "operation": "one of the operations of the world", "expected": "a result", "actual": "no end after 45 s", "kind": "hang", "world": w.to_json()}));
                    }
                    kids.remove(i);
                    continue;
                }
                None => {}
            }
            i += 1;
        }
        if (0..n).any(|k| dir.join(format!("diff-{k}")).exists()) || result.is_some() { for (_, c, _, _) in kids.iter_mut() { let _ = c.kill(); let _ = c.wait(); } kids.clear(); }
    }
    let mut stats = serde_json::Map::new();
    for k in 0..n {
        if let Ok(t) = std::fs::read_to_string(dir.join(format!("diff-{k}"))) { if result.is_none() { result = serde_json::from_str(&t).ok(); } }
        if let Ok(t) = std::fs::read_to_string(dir.join(format!("stats-{k}"))) { for (key, v) in serde_json::from_str::<Value>(&t).unwrap().as_object().unwrap() { let c = stats.get(key).and_then(|x| x.as_u64()).unwrap_or(0); stats.insert(key.clone(), json!(c + v.as_u64().unwrap())); } }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let o = json!({"property": id, "seed": seed, "seconds": start.elapsed().as_secs_f64(), "stats": stats, "difference": result, "sample": gen::world(id, seed, 0).to_json()});
    std::fs::write(out, serde_json::to_string_pretty(&o).unwrap()).unwrap();
    println!("{} {}", serde_json::to_string(&o["stats"]).unwrap(), if o["difference"].is_null() { "no difference" } else { "DIFFERENCE" });
}
