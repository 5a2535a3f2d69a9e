//! Sidecar contracts: /verif/contracts/*.vc
use std::collections::BTreeMap;
#[derive(Default, Clone)]
pub struct Loop { pub inv: Vec<String>, pub dec: Option<String>, pub ens: Vec<String> }
#[derive(Default, Clone)]
pub struct Contract {
    pub key: String, pub params: Vec<String>, pub ret: String,
    pub props: Vec<String>,
    pub requires: Vec<(Vec<String>, String)>, pub ensures: Vec<(Vec<String>, String)>,
    pub dec: Option<String>, pub attrs: Vec<String>,
    pub loops: BTreeMap<usize, Loop>, pub nloops: Option<usize>,
    pub hints: Vec<(String, String)>,
    pub closures: BTreeMap<usize, (String, String)>, pub lifts: BTreeMap<usize, String>,
    pub ghosts: Vec<(String, String)>,
    pub looptags: BTreeMap<usize, Vec<String>>,
    pub trusted: bool, pub trusted_why: String,
}
impl Contract {
    pub fn subst(&self, from: &str, to: &str) -> Contract {
        let mut c = self.clone();
        let r = |s: &mut String| *s = s.replace(from, to);
        for (_, s) in c.requires.iter_mut().chain(c.ensures.iter_mut()) { r(s); }
        if let Some(d) = c.dec.as_mut() { r(d); }
        for l in c.loops.values_mut() { for s in l.inv.iter_mut().chain(l.ens.iter_mut()) { r(s); } if let Some(d) = l.dec.as_mut() { r(d); } }
        for (_, s) in c.hints.iter_mut() { r(s); }
        for (a, b) in c.closures.values_mut() { r(a); r(b); }
        for s in c.lifts.values_mut() { r(s); }
        for (_, s) in c.ghosts.iter_mut() { r(s); }
        c
    }
}
fn tagged(s: &str) -> (Vec<String>, String) {
    // "C01 C22: expr"
    if let Some((t, e)) = s.split_once(':') {
        let tags: Vec<&str> = t.split_whitespace().collect();
        if !tags.is_empty() && tags.iter().all(|x| x.len() == 3 && x.starts_with('C') && x[1..].chars().all(|c| c.is_ascii_digit())) {
            return (tags.iter().map(|s| s.to_string()).collect(), e.trim().to_string());
        }
    }
    (vec![], s.trim().to_string())
}
pub fn parse(text: &str, errs: &mut Vec<String>) -> Vec<Contract> {
    let mut items: Vec<(String, String)> = vec![];
    for line in text.lines() {
        if line.trim_start().starts_with("//") { continue; }
        if let Some(r) = line.strip_prefix('@') {
            let (d, rest) = match r.find(|c: char| c.is_whitespace()) { Some(i) => (&r[..i], &r[i..]), None => (r, "") };
            items.push((d.to_string(), rest.trim().to_string()));
        } else if let Some(l) = items.last_mut() { l.1.push('\n'); l.1.push_str(line); }
    }
    let mut out: Vec<Contract> = vec![];
    let mut cur_loop: Option<usize> = None;
    for (d, p) in items {
        let p = p.trim().to_string();
        if d == "fn" {
            // Key(params) -> ret
            let (head, ret) = match p.rsplit_once("->") { Some((h, r)) => (h.trim().to_string(), r.trim().to_string()), None => (p.clone(), "r".into()) };
            let (key, params) = match head.split_once('(') { Some((k, ps)) => (k.trim().to_string(), ps.trim_end_matches(')').split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect()), None => (head.clone(), vec![]) };
            out.push(Contract { key, params, ret, ..Default::default() });
            cur_loop = None;
            continue;
        }
        let Some(c) = out.last_mut() else { errs.push(format!("directive before @fn: {d}")); continue };
        match d.as_str() {
            "props" => c.props = p.split_whitespace().map(|s| s.to_string()).collect(),
            "requires" => c.requires.push(tagged(&p)),
            "ensures" => match cur_loop { Some(k) if false => c.loops.get_mut(&k).unwrap().ens.push(p), _ => c.ensures.push(tagged(&p)) },
            "loopensures" => { if let Some(k) = cur_loop { c.loops.get_mut(&k).unwrap().ens.push(p) } }
            "dec" => match cur_loop { Some(k) => c.loops.get_mut(&k).unwrap().dec = Some(p), None => c.dec = Some(p) },
            "attr" => c.attrs.push(p),
            // k, and the properties which its invariants are about
            "loop" => { let mut w = p.split_whitespace(); let k: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0); let t: Vec<String> = w.map(String::from).collect(); c.loops.entry(k).or_default(); if !t.is_empty() { c.looptags.insert(k, t); } cur_loop = Some(k); }
            "nloops" => c.nloops = p.parse().ok(),
            "inv" => { if let Some(k) = cur_loop { c.loops.get_mut(&k).unwrap().inv.push(p) } else { errs.push(format!("@inv outside a loop in {}", c.key)) } }
            "hint" => { let (place, h) = p.split_once(|c: char| c.is_whitespace()).unwrap_or((&p, "")); c.hints.push((place.to_string(), h.to_string())); }
            "closure" => { // k: SIG => CLAUSES
                let (k, r) = p.split_once(':').unwrap_or(("0", "")); let (s, cl) = r.split_once("=>").unwrap_or((r, ""));
                c.closures.insert(k.trim().parse().unwrap_or(0), (s.trim().to_string(), cl.trim().to_string()));
            }
            "lift" => { let (k, r) = p.split_once(':').unwrap_or(("0", "")); c.lifts.insert(k.trim().parse().unwrap_or(0), r.trim().to_string()); }
            "ghost" => { let (m, g) = p.split_once(':').unwrap_or((&p, "")); c.ghosts.push((m.trim().to_string(), g.trim().to_string())); }
            "trusted" => { c.trusted = true; c.trusted_why = p; }
            _ => errs.push(format!("unknown directive @{d} in {}", c.key)),
        }
    }
    out
}
