//! The string, character and whole-number literals of the sources under test. Words that the sources of the
//! last reviewed tree (literals.txt) do not have are mixed into the generated worlds much more often: a change
//! that tells inputs apart by a word of its own is met with inputs that contain that word.
use std::sync::OnceLock;

pub struct Words { pub new: Vec<String>, pub old: Vec<String>, pub numbers: Vec<usize> }

fn read(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(d) = std::fs::read_dir(dir) {
        let mut l: Vec<_> = d.filter_map(|e| e.ok().map(|e| e.path())).collect();
        l.sort();
        for p in l { if p.is_dir() { read(&p, out); } else if p.extension().is_some_and(|e| e == "rs") { out.push(p); } }
    }
}

/// (strings and characters, numbers) of a Rust text, comments left out
pub fn literals(text: &str) -> (Vec<String>, Vec<usize>) {
    let c: Vec<char> = text.chars().collect();
    let (mut i, mut words, mut nums) = (0, vec![], vec![]);
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let esc = |i: &mut usize, s: &mut String| {
        // at(*i) is the character after the backslash
        match at(*i) { 'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), '0' => s.push('\0'), 'x' | 'u' => s.push('\u{1}'), '\n' => {} o => s.push(o) }
        *i += 1;
    };
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => while i < c.len() && c[i] != '\n' { i += 1 },
            '/' if at(i + 1) == '*' => { i += 2; while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') { i += 1 } i += 2; }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' { if c[i] == '\\' { i += 1; esc(&mut i, &mut s); } else { s.push(c[i]); i += 1; } }
                i += 1;
                words.push(s);
            }
            '\'' => {
                if at(i + 1) == '\\' { let mut s = String::new(); i += 2; esc(&mut i, &mut s); while i < c.len() && c[i] != '\'' { i += 1 } i += 1; words.push(s); }
                else if at(i + 2) == '\'' { words.push(at(i + 1).to_string()); i += 3; }
                else { i += 1; }
            }
            d if d.is_ascii_digit() => {
                let mut s = String::new();
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { if c[i] != '_' { s.push(c[i]); } i += 1; }
                let digits: String = s.chars().take_while(|x| x.is_ascii_digit()).collect();
                if let Ok(n) = digits.parse() { nums.push(n); }
            }
            a if a.is_alphanumeric() || a == '_' => while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1 },
            _ => i += 1,
        }
    }
    (words, nums)
}

pub fn all() -> (Vec<String>, Vec<usize>) {
    let mut files = vec![];
    read(std::path::Path::new("/repo/src"), &mut files);
    let (mut w, mut n) = (vec![], vec![]);
    for f in files { if let Ok(t) = std::fs::read_to_string(f) { let (a, b) = literals(&t); w.extend(a); n.extend(b); } }
    w.retain(|s| !s.is_empty() && s.len() <= 24 && !s.contains('\0') && !s.contains('{'));
    n.retain(|x| *x >= 3 && *x <= 20000);
    w.sort(); w.dedup(); n.sort(); n.dedup();
    (w, n)
}

pub fn words() -> &'static Words {
    static W: OnceLock<Words> = OnceLock::new();
    W.get_or_init(|| {
        let known: Vec<String> = include_str!("literals.txt").lines().map(|l| serde_json::from_str(l).unwrap_or_default()).collect();
        let (w, n) = all();
        let mut new: Vec<String> = w.iter().filter(|s| !known.contains(s)).cloned().collect();
        let mut numbers: Vec<usize> = n.iter().copied().filter(|x| !known.contains(&x.to_string())).collect();
        if let Ok(x) = std::env::var("HX_WORDS") { for s in x.split(' ') { new.push(s.to_string()); if let Ok(n) = s.parse() { numbers.push(n); } } }
        let old = ["node_modules", "package.json", "default", "main", "browser", "exports", "imports", "name", "index", "node:", "../", "./", "..", "//", "?", "#", "*", "@", "baseUrl", "paths", "extends", "sideEffects", "true", "false"].map(String::from).to_vec();
        Words { new, old, numbers }
    })
}
