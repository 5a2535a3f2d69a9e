// ---------- the governing description file ----------
/// the nearest directory, from d upwards, which contains the file n
pub open spec fn gov_dir(n: Seq<char>, d: Seq<char>) -> Option<Seq<char>> decreases d.len() via gov_dir_dec {
    if fs_is_file(p_join(d, n)) { Some(d) } else { match p_parent(d) { Some(u) => gov_dir(n, u), None => None } }
}
#[via_fn] proof fn gov_dir_dec(n: Seq<char>, d: Seq<char>) { ax_parent(d); }
pub open spec fn str_is(s: Option<String>, v: Option<Seq<char>>) -> bool { match s { Some(x) => v == Some(x@), None => v.is_none() } }
pub open spec fn get_str(j: Value, k: Seq<char>) -> Option<Seq<char>> { match vget(j, k) { Some(v) => vstr(v), None => None } }
/// an entry of the browser map that counts
pub open spec fn br_entry(v: Value) -> bool { v == Value::Bool(false) || v is String }
pub open spec fn br_val(a: AliasMap, v: Value) -> bool { match a { AliasMap::Ignored => v == Value::Bool(false), AliasMap::Target(t) => vstr(v) == Some(t@) } }
/// the first n entries that count
pub open spec fn br_kept(e: Seq<(Seq<char>, Value)>, n: int) -> Seq<(Seq<char>, Value)> decreases n {
    if n <= 0 || n > e.len() { Seq::empty() } else if br_entry(e[n - 1].1) { br_kept(e, n - 1).push(e[n - 1]) } else { br_kept(e, n - 1) }
}
pub open spec fn br_same(a: IndexMap<String, AliasMap>, k: Seq<(Seq<char>, Value)>) -> bool {
    a.e().len() == k.len() && forall|i: int| 0 <= i < k.len() ==> (#[trigger] a.e()[i]).0 == k[i].0 && br_val(a.e()[i].1, k[i].1)
}
/// the browser map made of the first n entries, on the way
pub open spec fn br_part(a: IndexMap<String, AliasMap>, it: Seq<(&String, &Value)>, m: IndexMap<String, Value>, n: int) -> bool {
    &&& it.len() == m.e().len() && br_same(a, br_kept(m.e(), n))
    &&& forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i]).0@ == m.e()[i].0 && *it[i].1 == m.e()[i].1
}
pub proof fn br_kept_sub(e: Seq<(Seq<char>, Value)>, n: int)
    requires 0 <= n <= e.len(), ensures forall|j: int| 0 <= j < br_kept(e, n).len() ==> exists|i: int| 0 <= i < n && e[i] == #[trigger] br_kept(e, n)[j], decreases n
{
    if n > 0 {
        br_kept_sub(e, n - 1);
        assert forall|j: int| 0 <= j < br_kept(e, n).len() implies exists|i: int| 0 <= i < n && e[i] == #[trigger] br_kept(e, n)[j] by {
            if j < br_kept(e, n - 1).len() { let i = choose|i: int| 0 <= i < n - 1 && e[i] == br_kept(e, n - 1)[j]; assert(e[i] == br_kept(e, n)[j]); } else { assert(e[n - 1] == br_kept(e, n)[j]); }
        }
    }
}
/// the key of an entry occurs in no earlier one
pub broadcast proof fn bl_br_fresh(m: IndexMap<String, Value>, n: int)
    requires 0 <= n < m.e().len(), ensures #![trigger br_kept(m.e(), n)] forall|j: int| 0 <= j < br_kept(m.e(), n).len() ==> (#[trigger] br_kept(m.e(), n)[j]).0 != m.e()[n].0
{ ax_im_nodup(m); br_kept_sub(m.e(), n); }
pub open spec fn key_browser() -> Seq<char> { seq!['b', 'r', 'o', 'w', 's', 'e', 'r'] }
pub open spec fn key_exports() -> Seq<char> { seq!['e', 'x', 'p', 'o', 'r', 't', 's'] }
pub open spec fn key_imports() -> Seq<char> { seq!['i', 'm', 'p', 'o', 'r', 't', 's'] }
pub open spec fn key_name() -> Seq<char> { seq!['n', 'a', 'm', 'e'] }
pub open spec fn key_version() -> Seq<char> { seq!['v', 'e', 'r', 's', 'i', 'o', 'n'] }
pub open spec fn key_side() -> Seq<char> { seq!['s', 'i', 'd', 'e', 'E', 'f', 'f', 'e', 'c', 't', 's'] }
pub open spec fn br_map(j: Value, a: IndexMap<String, AliasMap>) -> bool {
    match vget(j, key_browser()) { Some(Value::Object(m)) => br_same(a, br_kept(m.e(), m.e().len() as int)), _ => a.e().len() == 0 }
}
pub open spec fn map_value(j: Value, k: Seq<char>) -> Option<Value> { match vget(j, k) { Some(Value::Null) => None, x => x } }
pub open spec fn ex_tree(v: Option<Value>, t: Option<Arc<PathTreeNode>>) -> bool { match (v, t) { (Some(v), Some(t)) => tree_exports(v, *t), (None, None) => true, _ => false } }
pub open spec fn im_tree(v: Option<Value>, t: Option<Arc<PathTreeNode>>) -> bool { match (v, t) { (Some(v), Some(t)) => tree_imports(v, *t), (None, None) => true, _ => false } }
pub open spec fn all_strings(l: Seq<String>, v: Seq<Value>, n: int) -> bool { l.len() == n && 0 <= n <= v.len() && forall|i: int| 0 <= i < n ==> vstr(#[trigger] v[i]) == Some(l[i]@) }
pub open spec fn side_is(v: Option<Value>, s: Option<SideEffects>) -> bool {
    match (v, s) {
        (None, None) => true,
        (Some(Value::Bool(b)), Some(SideEffects::Bool(c))) => b == c,
        (Some(Value::Array(l)), Some(SideEffects::Array(m))) => all_strings(m@, l@, l@.len() as int),
        _ => false,
    }
}
/// what a description file with this content says
pub open spec fn says(t: Seq<char>, p: PkgFileInfo) -> bool {
    &&& json_of(t) == Some(p.raw)
    &&& str_is(p.name, get_str(p.raw, key_name()))
    &&& str_is(p.version, get_str(p.raw, key_version()))
    &&& br_map(p.raw, p.alias_fields)
    &&& ex_tree(map_value(p.raw, key_exports()), p.exports_field_tree)
    &&& im_tree(map_value(p.raw, key_imports()), p.imports_field_tree)
    &&& side_is(vget(p.raw, key_side()), p.side_effects)
}
pub open spec fn strs_only(a: Vec<Value>) -> bool { forall|i: int| 0 <= i < a@.len() ==> vstr(#[trigger] a@[i]) is Some }
pub open spec fn side_ok(v: Option<Value>) -> bool { match v { None => true, Some(Value::Bool(b)) => true, Some(Value::Array(a)) => strs_only(a), _ => false } }
/// a description file that cannot be used
pub open spec fn malformed(t: Seq<char>) -> bool {
    match json_of(t) {
        None => true,
        Some(j) => !side_ok(vget(j, key_side())) || (match map_value(j, key_exports()) { Some(v) => !valid_exports(v), None => false }) || (match map_value(j, key_imports()) { Some(v) => !valid_imports(v), None => false }),
    }
}
pub open spec fn bad_desc(f: Seq<char>) -> bool { fs_mtime(f).is_none() || match fs_text(f) { Some(t) => malformed(t), None => true } }
/// p is the description that the file n in the directory d gives
pub open spec fn desc_of(n: Seq<char>, d: Seq<char>, p: PkgFileInfo) -> bool {
    p.abs_dir_path@ == canon(d) && p_eq(p.abs_dir_path@, d) && fs_is_file(p_join(d, n)) && fs_mtime(p_join(d, n)).is_some() && fs_text(p_join(d, n)).is_some() && says(fs_text(p_join(d, n)).unwrap(), p)
}
/// what may be remembered for a directory
pub open spec fn entry_ok(n: Seq<char>, d: Seq<char>, v: Option<Arc<PkgFileInfo>>) -> bool {
    match v { None => gov_dir(n, d).is_none(), Some(p) => desc_of(n, d, *p) }
}
/// the file name a cache is used with (fixed when the cache is created, see DESIGN.md)
pub uninterp spec fn gname(c: ResolverCache) -> Option<Seq<char>>;
pub open spec fn optv(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub open spec fn cache_wf(c: ResolverCache) -> bool {
    &&& forall|k: Seq<char>, v: Option<Arc<PkgFileInfo>>| #[trigger] c.file_dir_to_pkg_info.ok(k, v) <==> gname(c).is_some() && entry_ok(gname(c).unwrap(), k, v)
    &&& forall|k: Seq<char>, t: Arc<PathTreeNode>| #[trigger] c.exports_content_to_tree.ok(k, t) <==> exists|v: Value| json_text(v) == k && #[trigger] tree_exports(v, *t)
    &&& forall|k: Seq<char>, t: Arc<PathTreeNode>| #[trigger] c.imports_content_to_tree.ok(k, t) <==> exists|v: Value| json_text(v) == k && #[trigger] tree_imports(v, *t)
}
pub open spec fn file_wf(f: CacheFile) -> bool {
    forall|k: Seq<char>, v: (Arc<String>, SystemTime)| #[trigger] f.cached_file.ok(k, v)
}
#[verifier::opaque] pub open spec fn wf(r: Resolver) -> bool {
    cache_wf(*r.cache) && gname(*r.cache) == optv(r.options.description_file) && file_wf(r.fs) && r.fs.duration.ns() == 1_000_000_000
}
/// the outcome of loading the description that governs a path
#[verifier::opaque] pub open spec fn pkg_rel(r: Resolver, path: Seq<char>, out: LRes) -> bool { governed(optv(r.options.description_file), path, out) }
pub open spec fn governed(name: Option<Seq<char>>, path: Seq<char>, out: LRes) -> bool decreases path.len() via governed_dec {
    match name {
        None => out is Ok && out->Ok_0 is None,
        Some(n) => if !fs_is_dir(path) {
            match p_parent(path) { Some(d) => governed(name, d, out), None => out is Err && out->Err_0@ == tag() }
        } else {
            match gov_dir(n, path) {
                None => out is Ok && out->Ok_0 is None,
                Some(d) => if !fs_is_dir(d) { d.len() < path.len() && governed(name, d, out) } else { match out { Ok(Some(p)) => desc_of(n, d, *p), Ok(None) => false, Err(e) => e@ != tag() && bad_desc(p_join(d, n)) } },
            }
        },
    }
}
#[via_fn] proof fn governed_dec(name: Option<Seq<char>>, path: Seq<char>, out: LRes) { ax_parent(path); match name { Some(n) => { lem_gov(n, path); } None => {} } }
// ---------- when a description is read again ----------
/// whether the recorded modification time calls for reading the file again
pub open spec fn outdated(f: CacheFile, k: Seq<char>, b: bool) -> bool {
    ||| !fs_is_file(k) && !b
    ||| fs_is_file(k) && b && f.cached_file.none(k)
    ||| fs_is_file(k) && exists|v: (Arc<String>, SystemTime)| #[trigger] f.cached_file.got(k, v) && fs_mtime(k).is_some() && b == (fs_mtime(k).unwrap() < v.1.ns() || fs_mtime(k).unwrap() - v.1.ns() >= f.duration.ns())
}
/// p was made from the content read now, and the time of that content was recorded
pub open spec fn read_now(f: CacheFile, k: Seq<char>, p: PkgFileInfo) -> bool {
    exists|v: (Arc<String>, SystemTime)| #[trigger] f.cached_file.put(k, v) && fs_text(k) == Some(v.0@) && fs_mtime(k) == Some(v.1.ns()) && says(v.0@, p)
}

pub proof fn reveal_tag() ensures tag().len() == 2, tag()[0] == 'T', tag()[1] == '0' {}
pub open spec fn ext_same(a: Seq<char>, b: Seq<char>) -> bool { a =~= b }

/// how the description of the directory d was served: as remembered, when the recorded time allows it, or
/// read now and remembered; after a failure to parse nothing is remembered
pub open spec fn served(r: Resolver, d: Seq<char>, out: LRes) -> bool {
    let c = r.cache.file_dir_to_pkg_info;
    let k = p_join(d, optv(r.options.description_file).unwrap());
    match out {
        Ok(Some(p)) => c.got(d, out->Ok_0) && outdated(r.fs, k, false) || read_now(r.fs, k, *p) && c.put(d, out->Ok_0),
        Ok(None) => true,
        Err(e) => e@ == tag() || c.del(d) || fs_mtime(k).is_none(),
    }
}
pub open spec fn fresh(r: Resolver, path: Seq<char>, out: LRes) -> bool decreases path.len() via fresh_dec {
    if !fs_is_dir(path) { match p_parent(path) { Some(d) => fresh(r, d, out), None => true } }
    else { match gov_dir(optv(r.options.description_file).unwrap(), path) { None => true, Some(d) => fs_is_dir(d) ==> served(r, d, out) } }
}
#[via_fn] proof fn fresh_dec(r: Resolver, path: Seq<char>, out: LRes) { ax_parent(path); }
pub proof fn lem_gov(n: Seq<char>, d: Seq<char>)
    ensures match gov_dir(n, d) { Some(e) => fs_is_file(p_join(e, n)) && gov_dir(n, e) == Some(e) && (fs_is_file(p_join(d, n)) ==> e == d) && (!fs_is_file(p_join(d, n)) ==> e.len() < d.len()), None => !fs_is_file(p_join(d, n)) && (p_parent(d) is Some ==> gov_dir(n, p_parent(d).unwrap()).is_none()) }
    decreases d.len()
{
    ax_parent(d);
    if !fs_is_file(p_join(d, n)) { match p_parent(d) { Some(u) => { lem_gov(n, u); } None => {} } }
}
pub proof fn lem_gov_same(n: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires p_eq(a, b), ensures gov_dir(n, a).is_none() ==> gov_dir(n, b).is_none() decreases a.len()
{
    ax_parent(a); ax_p_same(a, b, n);
    match p_parent(a) { Some(u) => { if gov_dir(n, a).is_none() { lem_gov_same(n, u, p_parent(b).unwrap()); } } None => {} }
}
pub proof fn lem_desc_same(n: Seq<char>, a: Seq<char>, b: Seq<char>, p: PkgFileInfo)
    requires p_eq(a, b), desc_of(n, a, p), ensures desc_of(n, b, p), gov_dir(n, b) == Some(b)
{ ax_p_same(a, b, n); ax_p_trans(p.abs_dir_path@, a, b); lem_canon_eq(a, b); }
pub proof fn lem_gov_all()
    ensures
        forall|n: Seq<char>, d: Seq<char>| #![trigger gov_dir(n, d)] match gov_dir(n, d) { Some(e) => fs_is_file(p_join(e, n)) && gov_dir(n, e) == Some(e) && (fs_is_file(p_join(d, n)) ==> e == d) && (!fs_is_file(p_join(d, n)) ==> e.len() < d.len()), None => !fs_is_file(p_join(d, n)) && (p_parent(d) is Some ==> gov_dir(n, p_parent(d).unwrap()).is_none()) },
        forall|n: Seq<char>, a: Seq<char>, b: Seq<char>, v: Option<Arc<PkgFileInfo>>| #![trigger entry_ok(n, a, v), p_eq(a, b)] p_eq(a, b) && entry_ok(n, a, v) ==> entry_ok(n, b, v),
{
    assert forall|n: Seq<char>, d: Seq<char>| #![trigger gov_dir(n, d)] match gov_dir(n, d) { Some(e) => fs_is_file(p_join(e, n)) && gov_dir(n, e) == Some(e) && (fs_is_file(p_join(d, n)) ==> e == d) && (!fs_is_file(p_join(d, n)) ==> e.len() < d.len()), None => !fs_is_file(p_join(d, n)) && (p_parent(d) is Some ==> gov_dir(n, p_parent(d).unwrap()).is_none()) } by { lem_gov(n, d); }
    assert forall|n: Seq<char>, a: Seq<char>, b: Seq<char>, v: Option<Arc<PkgFileInfo>>| #![trigger entry_ok(n, a, v), p_eq(a, b)] p_eq(a, b) && entry_ok(n, a, v) implies entry_ok(n, b, v) by {
        match v { None => lem_gov_same(n, a, b), Some(p) => lem_desc_same(n, a, b, *p) }
    }
}
