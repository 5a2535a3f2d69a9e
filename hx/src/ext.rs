//! Runs the text that the verifier accepted (compiled with the assumed contracts' bodies: the real std functions)
//! side by side with the real crate: both have to answer every operation alike, to the letter.
use crate::{build, gen, model, panic_text, scratch, sub, sub_opts, world, Model, Op, Out};
use nodejs_resolver::{ResolveResult, Resolver, ResolverCache, SideEffects};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::Arc;
use std::time::Instant;

pub trait Ext { fn resolve(&self, base: &str, req: &str) -> String; fn side(&self, path: &str) -> String; }
pub type Make = fn(&[model::Opts]) -> Vec<Box<dyn Ext>>;

pub fn file_text(path: &str, target: &str, query: &str, fragment: &str) -> String { format!("file {path} | {target} | {query} | {fragment}") }
pub fn side_text(path: &str, b: Option<bool>, a: Option<Vec<String>>) -> String { format!("description {path} {b:?} {a:?}") }

fn real(r: &Resolver, base: &str, req: &str) -> String {
    match r.resolve(Path::new(base), req) {
        Ok(ResolveResult::Info(i)) => file_text(&i.path.display().to_string(), i.request.target.as_str(), i.request.query.as_str(), i.request.fragment.as_str()),
        Ok(ResolveResult::Ignored) => "ignored".into(),
        Err(e) => format!("error {e}"),
    }
}
fn real_side(r: &Resolver, path: &str) -> String {
    match r.load_side_effects(Path::new(path)) {
        Ok(None) => "none".into(),
        Ok(Some((p, s))) => match s { None => side_text(&p.display().to_string(), None, None), Some(SideEffects::Bool(b)) => side_text(&p.display().to_string(), Some(b), None), Some(SideEffects::Array(a)) => side_text(&p.display().to_string(), None, Some(a)) },
        Err(e) => format!("error {e}"),
    }
}

/// args: SECONDS SEED OUT
pub fn run_extracted(mk: Make) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (secs, seed, out): (f64, u64, String) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].clone());
    let workers = 6u64;
    let dir = scratch();
    let start = Instant::now();
    let (mut worlds, mut ops, mut found) = (0u64, 0u64, 0u64);
    let mut diffs: Vec<serde_json::Value> = vec![];
    let hs: Vec<_> = (0..workers).map(|k| { let dir = dir.clone(); std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let (mut worlds, mut ops, mut found) = (0u64, 0u64, 0u64);
        let mut diff = None;
        let root = dir.join(format!("x{k}"));
        let mut i = k;
        'all: while start.elapsed().as_secs_f64() < secs {
            let id = format!("C{:02}", 1 + i % 26);
            let w = gen::world(&id, seed, i / 26);
            i += workers;
            if w.par { continue; }
            w.build(&root);
            worlds += 1;
            let opts: Vec<model::Opts> = w.res.iter().map(|o| sub_opts(&root, o)).collect();
            let shared = Arc::new(ResolverCache::default());
            let res: Vec<Resolver> = opts.iter().map(|o| build(&root, o, &shared)).collect();
            let ext = mk(&opts);
            for op in &w.ops {
                let (what, x, y) = match op {
                    Op::Resolve { r, base, req } => {
                        let (base, req) = (sub(&root, base), sub(&root, req));
                        if Model::new(&opts[*r]).resolve(Path::new(&base), &req) == Out::Fail(model::Fail::Endless) { continue; }
                        (format!("resolve({base:?}, {req:?})"), catch_unwind(AssertUnwindSafe(|| real(&res[*r], &base, &req))), catch_unwind(AssertUnwindSafe(|| ext[*r].resolve(&base, &req))))
                    }
                    Op::Side { r, path } => { let path = sub(&root, path); (format!("load_side_effects({path:?})"), catch_unwind(AssertUnwindSafe(|| real_side(&res[*r], &path))), catch_unwind(AssertUnwindSafe(|| ext[*r].side(&path)))) }
                    Op::Write { path, text, ms, .. } => { world::write_ms(&root, path, text, *ms); continue; }
                    _ => continue,
                };
                ops += 1;
                let (x, y) = (x.unwrap_or_else(|e| format!("panic {}", panic_text(e).len().min(0))), y.unwrap_or_else(|e| format!("panic {}", panic_text(e).len().min(0))));
                if x.starts_with("file") { found += 1; }
                if x != y { diff = Some(serde_json::json!({"operation": what, "real": x, "extracted": y, "world": w.to_json()})); break 'all; }
            }
        }
        (worlds, ops, found, diff)
    }).unwrap() }).collect();
    for h in hs { let (w, o, f, d) = h.join().unwrap(); worlds += w; ops += o; found += f; diffs.extend(d); }
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::write(&out, serde_json::to_string_pretty(&serde_json::json!({"worlds": worlds, "operations": ops, "found": found, "seconds": start.elapsed().as_secs_f64(), "differences": diffs})).unwrap()).unwrap();
    println!("worlds {worlds} operations {ops} found {found} differences {}", diffs.len());
}
