// ---------- views of the results ----------
pub struct InfoV { pub path: Seq<char>, pub target: Seq<char>, pub query: Seq<char>, pub fragment: Seq<char> }
pub enum StV { Succ(InfoV), Ign, Resv(InfoV), Err(Seq<char>) }
pub open spec fn iv(i: ResolveInfo) -> InfoV { InfoV { path: i.path@, target: i.request.target@, query: i.request.query@, fragment: i.request.fragment@ } }
pub open spec fn sv(s: ResolverStats) -> StV {
    match s {
        ResolverStats::Success(ResolveResult::Info(i)) => StV::Succ(iv(i)),
        ResolverStats::Success(ResolveResult::Ignored) => StV::Ign,
        ResolverStats::Resolving(i) => StV::Resv(iv(i)),
        ResolverStats::Error(e) => StV::Err(e.0@),
    }
}
/// the kind that is kept with a request is the kind of its target
pub open spec fn wf_info(i: ResolveInfo) -> bool { i.request.kind == kind_of(i.request.target@) }
pub open spec fn wf_st(s: ResolverStats) -> bool {
    match s { ResolverStats::Resolving(i) => wf_info(i), ResolverStats::Error(e) => wf_info(e.1), _ => true }
}
/// C04: a success names an existing regular file and leaves no target
pub open spec fn file_succ(s: ResolverStats) -> bool {
    match s { ResolverStats::Success(ResolveResult::Info(i)) => fs_is_file(i.path@) && i.request.target@ == Seq::<char>::empty(), _ => true }
}
/// C01: a result that is a file keeps query and fragment
pub open spec fn keeps(s: ResolverStats, i: ResolveInfo) -> bool {
    match sv(s) { StV::Succ(x) => x.query == i.request.query@ && x.fragment == i.request.fragment@, StV::Resv(x) => x.query == i.request.query@ && x.fragment == i.request.fragment@, _ => true }
}
/// names a value, for the prover
pub open spec fn seen(s: StV) -> bool { true }
pub open spec fn succ(s: StV) -> bool { s is Succ || s is Ign }
pub open spec fn tag() -> Seq<char> { seq!['T', '0'] }
/// a specific reason
pub open spec fn reason(s: StV) -> bool { s is Err && s->Err_0 != tag() }
pub open spec fn retarget(i: InfoV, t: Seq<char>) -> InfoV { InfoV { target: t, ..i } }
pub open spec fn repath(i: InfoV, p: Seq<char>) -> InfoV { InfoV { path: p, ..i } }
pub open spec fn at_v(i: InfoV) -> Seq<char> { if i.target.len() == 0 || i.target == seq!['.'] { i.path } else { p_join(i.path, i.target) } }
pub open spec fn dot_slash(t: Seq<char>) -> Seq<char> { seq!['.', '/'] + t }
pub open spec fn kindv(i: InfoV) -> PathKind { kind_of(i.target) }
pub open spec fn is_path_kind(k: PathKind) -> bool { k is AbsolutePosix || k is AbsoluteWin || k is Relative }
pub open spec fn not_found(i: InfoV) -> Seq<char> {
    seq!['R', 'e', 's', 'o', 'l', 'v', 'e', ' ', '\''] + i.target + i.query + i.fragment + seq!['\'', ' ', 'f', 'a', 'i', 'l', 'e', 'd', ' ', 'i', 'n', ' ', '\''] + i.path + seq!['\'']
}
pub type Pkg = Option<Arc<PkgFileInfo>>;
pub type LRes = Result<Option<Arc<PkgFileInfo>>, String>;

// ---------- files ----------
pub open spec fn enforce(o: ResolverOptions) -> bool { o.enforce_extension == Some(true) }
pub open spec fn done(i: InfoV, p: Seq<char>) -> StV { StV::Succ(InfoV { path: p, target: Seq::empty(), ..i }) }
/// the first configured extension, from the k-th on, that gives a file
pub open spec fn ext_from(o: ResolverOptions, p: Seq<char>, k: int) -> Option<Seq<char>> decreases o.extensions@.len() - k {
    if k < 0 || k >= o.extensions@.len() { None } else if fs_is_file(p + o.extensions@[k]@) { Some(p + o.extensions@[k]@) } else { ext_from(o, p, k + 1) }
}
pub open spec fn ext_st(o: ResolverOptions, p: Seq<char>, i: InfoV) -> StV { match ext_from(o, p, 0) { Some(f) => done(i, f), None => StV::Resv(i) } }
pub open spec fn file_st(o: ResolverOptions, i: InfoV) -> StV {
    if !enforce(o) && fs_is_file(at_v(i)) { done(i, at_v(i)) } else { ext_st(o, at_v(i), i) }
}

// ---------- browser field ----------
pub open spec fn br_matches(o: ResolverOptions, p: PkgFileInfo, i: InfoV, k: Seq<char>) -> bool {
    if kindv(i) is Normal { i.target == k } else {
        p_eq(p_join(p.abs_dir_path@, k), at_v(i)) || exists|x: int| 0 <= x < o.extensions@.len() && p_eq(p_join(p.abs_dir_path@, k), at_v(i) + #[trigger] o.extensions@[x]@)
    }
}
/// follow replacements that are keys themselves, at most n times
pub open spec fn br_chase(m: Map<Seq<char>, AliasMap>, t: AliasMap, n: nat) -> AliasMap decreases n {
    if n == 0 { t } else { match t { AliasMap::Target(k) => if m.dom().contains(k@) { br_chase(m, m[k@], (n - 1) as nat) } else { t }, AliasMap::Ignored => t } }
}
pub open spec fn br_from(o: ResolverOptions, p: PkgFileInfo, i: InfoV, k: int) -> StV decreases p.alias_fields.e().len() - k {
    if k < 0 || k >= p.alias_fields.e().len() { StV::Resv(i) }
    else if br_matches(o, p, i, p.alias_fields.e()[k].0) {
        match br_chase(p.alias_fields.m(), p.alias_fields.e()[k].1, p.alias_fields.e().len()) {
            AliasMap::Target(t) => StV::Resv(InfoV { path: p.abs_dir_path@, target: t@, ..i }),
            AliasMap::Ignored => StV::Ign,
        }
    } else { br_from(o, p, i, k + 1) }
}
pub open spec fn br_st(o: ResolverOptions, pk: Pkg, i: InfoV) -> StV {
    match pk { Some(p) => if o.browser_field { br_from(o, *p, i, 0) } else { StV::Resv(i) }, None => StV::Resv(i) }
}

// ---------- the recursive relations ----------
/// what is known of the four relations; a rule says what follows from that
pub struct Rels { pub res: spec_fn(InfoV, StV) -> bool, pub dir: spec_fn(InfoV, StV) -> bool, pub mods: spec_fn(InfoV, StV) -> bool, pub imp: spec_fn(Pkg, InfoV, StV) -> bool }
#[verifier::opaque] pub open spec fn in_res(w: Rels, i: InfoV, x: StV) -> bool { (w.res)(i, x) }
#[verifier::opaque] pub open spec fn in_dir(w: Rels, i: InfoV, x: StV) -> bool { (w.dir)(i, x) }
#[verifier::opaque] pub open spec fn in_mods(w: Rels, i: InfoV, x: StV) -> bool { (w.mods)(i, x) }
#[verifier::opaque] pub open spec fn in_imp(w: Rels, pk: Pkg, i: InfoV, x: StV) -> bool { (w.imp)(pk, i, x) }

// ---------- directories ----------
pub open spec fn mf_target(v: Seq<char>) -> Seq<char> { if is_prefix(seq!['.', '/'], v) { v } else { dot_slash(v) } }
pub open spec fn mf_value(p: PkgFileInfo, name: Seq<char>) -> Option<Seq<char>> { match vget(p.raw, name) { Some(v) => vstr(v), None => None } }
pub open spec fn mf_stop(v: Seq<char>) -> bool { v == seq!['.'] || v == seq!['.', '/'] }
/// as a file, then as a directory
pub open spec fn file_dir(w: Rels, r: Resolver, i: InfoV, out: StV) -> bool { let f = file_st(r.options, i); if f is Resv { in_dir(w, f->Resv_0, out) } else { out == f } }
/// one main field value
pub open spec fn mf_one(w: Rels, r: Resolver, pk: Pkg, j: InfoV, v: Seq<char>, out: StV) -> bool {
    let b = br_st(r.options, pk, retarget(j, mf_target(v)));
    if b is Resv { file_dir(w, r, b->Resv_0, out) } else { out == b }
}
/// the k-th main field does not decide
pub open spec fn mf_pass(w: Rels, r: Resolver, pk: Pkg, j: InfoV, k: int) -> bool {
    match mf_value(*pk.unwrap(), r.options.main_fields@[k]@) { None => true, Some(v) => !mf_stop(v) && exists|x: StV| #[trigger] seen(x) && mf_one(w, r, pk, j, v, x) && !succ(x) }
}
pub open spec fn mfield_rule(w: Rels, r: Resolver, pk: Pkg, j: InfoV, out: StV) -> bool {
    if pk.is_none() || !p_eq(j.path, pk.unwrap().abs_dir_path@) { out == StV::Resv(j) }
    else { exists|n: int| #[trigger] vx_idx(n) && mfield_at(w, r, pk, j, out, n) }
}
pub open spec fn mfield_at(w: Rels, r: Resolver, pk: Pkg, j: InfoV, out: StV, n: int) -> bool {
    let len = r.options.main_fields@.len();
    &&& 0 <= n <= len
    &&& forall|k: int| 0 <= k < n ==> #[trigger] mf_pass(w, r, pk, j, k)
    &&& if n == len { out == StV::Resv(j) } else {
        match mf_value(*pk.unwrap(), r.options.main_fields@[n]@) { None => false, Some(v) => if mf_stop(v) { out == StV::Resv(j) } else { succ(out) && mf_one(w, r, pk, j, v, out) } }
    }
}
/// one main file
pub open spec fn mn_one(r: Resolver, pk: Pkg, j: InfoV, k: int) -> StV {
    let b = br_st(r.options, pk, retarget(j, dot_slash(r.options.main_files@[k]@)));
    if b is Resv { file_st(r.options, b->Resv_0) } else { b }
}
pub open spec fn mn_from(r: Resolver, pk: Pkg, j: InfoV, k: int) -> StV decreases r.options.main_files@.len() - k {
    if k < 0 || k >= r.options.main_files@.len() { StV::Resv(j) } else if succ(mn_one(r, pk, j, k)) { mn_one(r, pk, j, k) } else { mn_from(r, pk, j, k + 1) }
}
pub open spec fn dir_rest(w: Rels, r: Resolver, pk: Pkg, j: InfoV, out: StV) -> bool {
    exists|a: StV| #[trigger] seen(a) && mfield_rule(w, r, pk, j, a) && if a is Resv { let b = mn_from(r, pk, a->Resv_0, 0); out == (if b is Resv { StV::Err(tag()) } else { b }) } else { out == a }
}
pub open spec fn dir_rule(w: Rels, r: Resolver, i: InfoV, out: StV) -> bool {
    let d = at_v(i);
    if !fs_is_dir(d) { out == StV::Err(tag()) }
    else { exists|x: Seq<char>, pk: LRes| #[trigger] pkg_rel(r, x, pk) && x =~= d && match pk { Err(e) => out == StV::Err(e@), Ok(p) => dir_rest(w, r, p, InfoV { path: d, target: Seq::empty(), ..i }, out) } }
}

// ---------- aliases, prefer_relative ----------
pub open spec fn modules_dir() -> Seq<char> { seq!['n', 'o', 'd', 'e', '_', 'm', 'o', 'd', 'u', 'l', 'e', 's'] }
pub open spec fn res_fails(w: Rels, r: Resolver, i: InfoV) -> bool { exists|x: StV| #[trigger] seen(x) && in_res(w, i, x) && !succ(x) }
pub open spec fn al_new(i: InfoV, from: Seq<char>, to: Seq<char>) -> InfoV { retarget(i, to + i.target.skip(from.len() as int)) }
pub open spec fn al_pass(w: Rels, r: Resolver, i: InfoV, k: int) -> bool {
    let e = r.options.alias@[k];
    !is_prefix(e.0@, i.target) || match e.1 { AliasMap::Target(to) => is_prefix(to@, i.target) || res_fails(w, r, al_new(i, e.0@, to@)), AliasMap::Ignored => false }
}
pub open spec fn al_at(w: Rels, r: Resolver, i: InfoV, out: StV, n: int) -> bool {
    let len = r.options.alias@.len();
    &&& 0 <= n <= len
    &&& forall|k: int| 0 <= k < n ==> #[trigger] al_pass(w, r, i, k)
    &&& if n == len { out == StV::Resv(i) } else {
        let e = r.options.alias@[n];
        is_prefix(e.0@, i.target) && match e.1 { AliasMap::Target(to) => !is_prefix(to@, i.target) && in_res(w, al_new(i, e.0@, to@), out) && succ(out), AliasMap::Ignored => out == StV::Ign }
    }
}
/// a directory called node_modules is on the path
pub open spec fn inside_modules(p: Seq<char>) -> bool { exists|k: int| 0 <= k < p_comps(p).len() && #[trigger] p_comps(p)[k] == CompV::Name(modules_dir()) }
pub open spec fn alias_rule(w: Rels, r: Resolver, i: InfoV, out: StV) -> bool {
    if inside_modules(i.path) { out == StV::Resv(i) } else { exists|n: int| #[trigger] vx_idx(n) && al_at(w, r, i, out, n) }
}
pub open spec fn prefer_rule(w: Rels, r: Resolver, i: InfoV, out: StV) -> bool {
    if r.options.prefer_relative && !is_prefix(seq!['.', '/'], i.target) && !is_prefix(seq!['.', '.', '/'], i.target) {
        exists|x: StV| #[trigger] seen(x) && in_res(w, retarget(i, dot_slash(i.target)), x) && out == (if succ(x) { x } else { StV::Resv(i) })
    } else { out == StV::Resv(i) }
}

// ---------- exports ----------
/// length of the package name at the front of a request: one segment, or two after '@'
pub open spec fn name_len(t: Seq<char>) -> int {
    let a = first_of(t, '/');
    if t.len() > 0 && t[0] == '@' && a < t.len() { a + 1 + first_of(t.skip(a + 1), '/') } else { a }
}
pub open spec fn name_of(t: Seq<char>) -> Seq<char> { t.take(name_len(t)) }
/// a package requests itself: its exact name, or a subpath of it
pub open spec fn own(p: PkgFileInfo, t: Seq<char>) -> bool {
    match p.name { Some(n) => is_prefix(n@, t) && (t.len() == n@.len() || t[n@.len() as int] == '/'), None => false }
}
pub open spec fn requested(p: PkgFileInfo, i: InfoV) -> bool { p_eq(p.abs_dir_path@, p_join(i.path, name_of(i.target))) }
/// what is looked up in the exports map
pub open spec fn exp_sub(p: PkgFileInfo, i: InfoV) -> Option<Seq<char>> {
    let t = i.target;
    let a = first_of(t, '/');
    let c = if t.len() > 0 && t[0] == '@' && a < t.len() { t.skip(a + 1) } else { t };
    let b = first_of(c, '/');
    let s = if b < c.len() { Some(seq!['.'] + c.skip(b)) } else if fs_exists(p_join(i.path, t)) || (p.name.is_some() && p.name.unwrap()@ == t) { Some(seq!['.']) } else { None };
    match s { None => None, Some(s) => Some(if i.query.len() == 0 && i.fragment.len() == 0 { s } else { (if s == seq!['.'] { seq!['.', '/'] } else { s }) + i.query + i.fragment }) }
}
pub open spec fn item_info(dir: Seq<char>, item: Seq<char>) -> InfoV { InfoV { path: dir, target: target_of(item), query: query_of(item), fragment: fragment_of(item) } }
/// a target that may be used: an existing file, that does not leave the package
pub open spec fn usable(dir: Seq<char>, item: Seq<char>) -> bool { fs_is_file(at_v(item_info(dir, item))) && contained(target_of(item)) }
pub open spec fn exp_pick(dir: Seq<char>, list: Seq<String>, out: StV, n: int) -> bool {
    &&& 0 <= n <= list.len()
    &&& forall|k: int| 0 <= k < n ==> !usable(dir, #[trigger] list[k]@)
    &&& if n == list.len() { reason(out) } else { usable(dir, list[n]@) && out == StV::Resv(item_info(dir, list[n]@)) }
}
pub open spec fn exp_applies(pk: Pkg, i: InfoV) -> bool {
    pk.is_some() && kindv(i) is Normal && (requested(*pk.unwrap(), i) || own(*pk.unwrap(), i.target)) && pk.unwrap().exports_field_tree.is_some()
}
pub open spec fn exp_rule(r: Resolver, pk: Pkg, i: InfoV, out: StV) -> bool {
    if !exp_applies(pk, i) { out == StV::Resv(i) } else {
        let p = pk.unwrap();
        match exp_sub(*p, i) {
            None => out == StV::Err(tag()),
            Some(sub) => exists|x: Seq<char>, l: Result<Vec<String>, String>| #[trigger] fp_exports(*p.exports_field_tree.unwrap(), x, r.options.condition_names@, l)
                && x =~= sub && match l { Err(e) => out == StV::Err(e@) && e@ != tag(), Ok(list) => exists|n: int| #[trigger] vx_idx(n) && exp_pick(p.abs_dir_path@, list@, out, n) },
        }
    }
}

// ---------- imports ----------
pub open spec fn imp_applies(pk: Pkg, i: InfoV) -> bool { pk.is_some() && i.target.len() > 0 && i.target[0] == '#' && pk.unwrap().imports_field_tree.is_some() }
pub open spec fn imp_rule(w: Rels, r: Resolver, pk: Pkg, i: InfoV, out: StV) -> bool {
    if !imp_applies(pk, i) { out == StV::Resv(i) } else {
        let p = pk.unwrap();
        exists|l: Result<Vec<String>, String>| #[trigger] fp_imports(*p.imports_field_tree.unwrap(), i.target, r.options.condition_names@, l)
            && match l { Err(e) => out == StV::Err(e@) && e@ != tag(), Ok(list) => if list@.len() == 0 { reason(out) } else {
                let c = item_info(p.abs_dir_path@, list@[0]@);
                match kindv(c) {
                    PathKind::Normal => out == StV::Resv(c),
                    PathKind::Internal => in_imp(w, pk, c, out),
                    _ => if usable(p.abs_dir_path@, list@[0]@) { out == StV::Resv(c) } else { reason(out) },
                }
            } }
    }
}

// ---------- node_modules ----------
pub open spec fn bare_to_rel(i: InfoV) -> InfoV { if kindv(i) is Normal { retarget(i, dot_slash(i.target)) } else { i } }
pub open spec fn lv_tail(w: Rels, r: Resolver, p: Pkg, i: InfoV, z: StV) -> bool {
    let b = br_st(r.options, p, bare_to_rel(i));
    if b is Resv { file_dir(w, r, b->Resv_0, z) } else { z == b }
}
pub open spec fn lv_imp(w: Rels, r: Resolver, p: Pkg, i: InfoV, z: StV) -> bool {
    exists|f: StV| #[trigger] seen(f) && in_imp(w, p, i, f) && if f is Resv { lv_tail(w, r, p, f->Resv_0, z) } else { z == f }
}
pub open spec fn lv_chain(w: Rels, r: Resolver, p: Pkg, q: Pkg, m: InfoV, z: StV) -> bool {
    exists|e: StV| #[trigger] seen(e) && exp_rule(r, q, m, e) && if e is Resv { lv_imp(w, r, p, e->Resv_0, z) } else { z == e }
}
pub open spec fn lv_found(w: Rels, r: Resolver, p: Pkg, q: Pkg, i: InfoV, m: InfoV, a: StV) -> bool {
    if !fs_is_dir(p_join(m.path, name_of(i.target))) && !(p.is_some() && own(*p.unwrap(), i.target)) {
        let f = file_st(r.options, m);
        a == (if succ(f) { f } else { StV::Resv(i) })
    } else { (lv_chain(w, r, p, q, m, StV::Err(tag())) && a == StV::Resv(i)) || (a != StV::Err(tag()) && lv_chain(w, r, p, q, m, a)) }
}
/// one node_modules directory
pub open spec fn level(w: Rels, r: Resolver, i: InfoV, a: StV) -> bool {
    let root = p_join(i.path, modules_dir());
    if !fs_is_dir(root) { a == StV::Resv(i) } else {
        exists|x: Seq<char>, pk: LRes| #[trigger] pkg_rel(r, x, pk) && x =~= p_join(root, i.target) && match pk {
            Err(e) => a == StV::Err(e@),
            Ok(p) => exists|y: Seq<char>, qk: LRes| #[trigger] pkg_rel(r, y, qk) && y =~= p_join(root, name_of(i.target)) && match qk {
                Err(e) => a == StV::Err(e@),
                Ok(q) => lv_found(w, r, p, q, i, repath(i, root), a),
            },
        }
    }
}
pub open spec fn mods_rule(w: Rels, r: Resolver, i: InfoV, out: StV) -> bool {
    ||| level(w, r, i, StV::Resv(i)) && (match p_parent(i.path) { Some(d) => in_mods(w, repath(i, d), out), None => out == StV::Err(tag()) })
    ||| !(out is Resv) && level(w, r, i, out)
}

// ---------- a complete lookup ----------
pub open spec fn subject(i: InfoV) -> Seq<char> { if kindv(i) is Normal { p_join(p_join(i.path, modules_dir()), i.target) } else { at_v(i) } }
pub open spec fn res_last(w: Rels, r: Resolver, i: InfoV, out: StV) -> bool { if is_path_kind(kindv(i)) { file_dir(w, r, i, out) } else { in_mods(w, i, out) } }
pub open spec fn res_browser(w: Rels, r: Resolver, p: Pkg, i: InfoV, out: StV) -> bool { let b = br_st(r.options, p, i); if b is Resv { res_last(w, r, b->Resv_0, out) } else { out == b } }
pub open spec fn res_pkg(w: Rels, r: Resolver, i: InfoV, out: StV) -> bool {
    exists|x: Seq<char>, pk: LRes| #[trigger] pkg_rel(r, x, pk) && x =~= subject(i) && match pk {
        Err(e) => out == StV::Err(e@),
        Ok(p) => exists|f: StV| #[trigger] seen(f) && in_imp(w, p, i, f) && if f is Resv { res_browser(w, r, p, f->Resv_0, out) } else { out == f },
    }
}
pub open spec fn res_prefer(w: Rels, r: Resolver, i: InfoV, out: StV) -> bool { exists|b: StV| #[trigger] seen(b) && prefer_rule(w, r, i, b) && if b is Resv { res_pkg(w, r, b->Resv_0, out) } else { out == b } }
pub open spec fn res_steps(w: Rels, r: Resolver, i: InfoV, out: StV) -> bool { exists|a: StV| #[trigger] seen(a) && alias_rule(w, r, i, a) && if a is Resv { res_prefer(w, r, a->Resv_0, out) } else { out == a } }
pub open spec fn res_rule(w: Rels, r: Resolver, i: InfoV, out: StV) -> bool {
    ||| res_steps(w, r, i, StV::Err(tag())) && out == StV::Err(not_found(i))
    ||| out != StV::Err(tag()) && res_steps(w, r, i, out)
}
// ---------- the least relations that satisfy the rules ----------
/// everything that the rules derive from w is in w
pub open spec fn closed(w: Rels, r: Resolver) -> bool {
    &&& forall|i: InfoV, x: StV| res_rule(w, r, i, x) ==> #[trigger] in_res(w, i, x)
    &&& forall|i: InfoV, x: StV| dir_rule(w, r, i, x) ==> #[trigger] in_dir(w, i, x)
    &&& forall|i: InfoV, x: StV| mods_rule(w, r, i, x) ==> #[trigger] in_mods(w, i, x)
    &&& forall|pk: Pkg, i: InfoV, x: StV| imp_rule(w, r, pk, i, x) ==> #[trigger] in_imp(w, pk, i, x)
}
/// a complete lookup of a request ends with this
#[verifier::opaque] pub open spec fn RES(r: Resolver, i: InfoV, out: StV) -> bool { forall|w: Rels| #[trigger] closed(w, r) ==> in_res(w, i, out) }
/// a lookup of a directory
#[verifier::opaque] pub open spec fn DIR(r: Resolver, i: InfoV, out: StV) -> bool { forall|w: Rels| #[trigger] closed(w, r) ==> in_dir(w, i, out) }
/// a lookup in the node_modules directories
#[verifier::opaque] pub open spec fn MODS(r: Resolver, i: InfoV, out: StV) -> bool { forall|w: Rels| #[trigger] closed(w, r) ==> in_mods(w, i, out) }
/// the imports map
#[verifier::opaque] pub open spec fn IMP(r: Resolver, pk: Pkg, i: InfoV, out: StV) -> bool { forall|w: Rels| #[trigger] closed(w, r) ==> in_imp(w, pk, i, out) }
#[verifier::opaque] pub open spec fn all(r: Resolver) -> Rels { Rels { res: |i: InfoV, x: StV| RES(r, i, x), dir: |i: InfoV, x: StV| DIR(r, i, x), mods: |i: InfoV, x: StV| MODS(r, i, x), imp: |pk: Pkg, i: InfoV, x: StV| IMP(r, pk, i, x) } }
/// fewer facts
pub open spec fn le(v: Rels, w: Rels) -> bool {
    &&& forall|i: InfoV, x: StV| #[trigger] in_res(v, i, x) ==> in_res(w, i, x)
    &&& forall|i: InfoV, x: StV| #[trigger] in_dir(v, i, x) ==> in_dir(w, i, x)
    &&& forall|i: InfoV, x: StV| #[trigger] in_mods(v, i, x) ==> in_mods(w, i, x)
    &&& forall|pk: Pkg, i: InfoV, x: StV| #[trigger] in_imp(v, pk, i, x) ==> in_imp(w, pk, i, x)
}
pub mod rel {
use super::*;
pub broadcast proof fn bl_res(r: Resolver, i: InfoV, x: StV) ensures #[trigger] in_res(all(r), i, x) == RES(r, i, x) { reveal(in_res); reveal(all); }
pub broadcast proof fn bl_dir(r: Resolver, i: InfoV, x: StV) ensures #[trigger] in_dir(all(r), i, x) == DIR(r, i, x) { reveal(in_dir); reveal(all); }
pub broadcast proof fn bl_mods(r: Resolver, i: InfoV, x: StV) ensures #[trigger] in_mods(all(r), i, x) == MODS(r, i, x) { reveal(in_mods); reveal(all); }
pub broadcast proof fn bl_imp(r: Resolver, pk: Pkg, i: InfoV, x: StV) ensures #[trigger] in_imp(all(r), pk, i, x) == IMP(r, pk, i, x) { reveal(in_imp); reveal(all); }
pub proof fn lem_least(w: Rels, r: Resolver) requires closed(w, r), ensures le(all(r), w)
{
    broadcast use {bl_res, bl_dir, bl_mods, bl_imp};
    reveal(RES); reveal(DIR); reveal(MODS); reveal(IMP);
}
proof fn m_file_dir(v: Rels, w: Rels, r: Resolver, i: InfoV, x: StV) requires le(v, w), file_dir(v, r, i, x), ensures file_dir(w, r, i, x) {}
proof fn m_mf_one(v: Rels, w: Rels, r: Resolver, pk: Pkg, j: InfoV, t: Seq<char>, x: StV) requires le(v, w), mf_one(v, r, pk, j, t, x), ensures mf_one(w, r, pk, j, t, x) {}
proof fn m_mf_pass(v: Rels, w: Rels, r: Resolver, pk: Pkg, j: InfoV, k: int) requires le(v, w), mf_pass(v, r, pk, j, k), ensures mf_pass(w, r, pk, j, k) {}
proof fn m_mfield_at(v: Rels, w: Rels, r: Resolver, pk: Pkg, j: InfoV, x: StV, n: int) requires le(v, w), mfield_at(v, r, pk, j, x, n), ensures mfield_at(w, r, pk, j, x, n)
{
    assert forall|k: int| 0 <= k < n implies #[trigger] mf_pass(w, r, pk, j, k) by { assert(mf_pass(v, r, pk, j, k)); m_mf_pass(v, w, r, pk, j, k); }
}
proof fn m_mfield(v: Rels, w: Rels, r: Resolver, pk: Pkg, j: InfoV, x: StV) requires le(v, w), mfield_rule(v, r, pk, j, x), ensures mfield_rule(w, r, pk, j, x)
{
    if !(pk.is_none() || !p_eq(j.path, pk.unwrap().abs_dir_path@)) { let n = choose|n: int| #[trigger] vx_idx(n) && mfield_at(v, r, pk, j, x, n); m_mfield_at(v, w, r, pk, j, x, n); }
}
proof fn m_dir_rest(v: Rels, w: Rels, r: Resolver, pk: Pkg, j: InfoV, x: StV) requires le(v, w), dir_rest(v, r, pk, j, x), ensures dir_rest(w, r, pk, j, x)
{
    let a = choose|a: StV| #[trigger] seen(a) && mfield_rule(v, r, pk, j, a) && if a is Resv { let b = mn_from(r, pk, a->Resv_0, 0); x == (if b is Resv { StV::Err(tag()) } else { b }) } else { x == a };
    m_mfield(v, w, r, pk, j, a);
}
pub proof fn m_dir(v: Rels, w: Rels, r: Resolver, i: InfoV, x: StV) requires le(v, w), dir_rule(v, r, i, x), ensures dir_rule(w, r, i, x)
{
    let d = at_v(i);
    if fs_is_dir(d) {
        let (y, pk) = choose|y: Seq<char>, pk: LRes| #[trigger] pkg_rel(r, y, pk) && y =~= d && match pk { Err(e) => x == StV::Err(e@), Ok(p) => dir_rest(v, r, p, InfoV { path: d, target: Seq::empty(), ..i }, x) };
        assert(pkg_rel(r, y, pk));
        match pk { Ok(p) => { m_dir_rest(v, w, r, p, InfoV { path: d, target: Seq::empty(), ..i }, x); } _ => {} }
    }
}
proof fn m_res_fails(v: Rels, w: Rels, r: Resolver, i: InfoV) requires le(v, w), res_fails(v, r, i), ensures res_fails(w, r, i) {}
proof fn m_al_pass(v: Rels, w: Rels, r: Resolver, i: InfoV, k: int) requires le(v, w), al_pass(v, r, i, k), ensures al_pass(w, r, i, k) {}
proof fn m_al_at(v: Rels, w: Rels, r: Resolver, i: InfoV, x: StV, n: int) requires le(v, w), al_at(v, r, i, x, n), ensures al_at(w, r, i, x, n)
{
    assert forall|k: int| 0 <= k < n implies #[trigger] al_pass(w, r, i, k) by { assert(al_pass(v, r, i, k)); m_al_pass(v, w, r, i, k); }
}
proof fn m_alias(v: Rels, w: Rels, r: Resolver, i: InfoV, x: StV) requires le(v, w), alias_rule(v, r, i, x), ensures alias_rule(w, r, i, x)
{
    if !inside_modules(i.path) { let n = choose|n: int| #[trigger] vx_idx(n) && al_at(v, r, i, x, n); m_al_at(v, w, r, i, x, n); }
}
proof fn m_prefer(v: Rels, w: Rels, r: Resolver, i: InfoV, x: StV) requires le(v, w), prefer_rule(v, r, i, x), ensures prefer_rule(w, r, i, x) {}
pub proof fn m_imp(v: Rels, w: Rels, r: Resolver, pk: Pkg, i: InfoV, x: StV) requires le(v, w), imp_rule(v, r, pk, i, x), ensures imp_rule(w, r, pk, i, x) {}
proof fn m_lv_tail(v: Rels, w: Rels, r: Resolver, p: Pkg, i: InfoV, z: StV) requires le(v, w), lv_tail(v, r, p, i, z), ensures lv_tail(w, r, p, i, z) {}
proof fn m_lv_imp(v: Rels, w: Rels, r: Resolver, p: Pkg, i: InfoV, z: StV) requires le(v, w), lv_imp(v, r, p, i, z), ensures lv_imp(w, r, p, i, z) {}
proof fn m_lv_chain(v: Rels, w: Rels, r: Resolver, p: Pkg, q: Pkg, m: InfoV, z: StV) requires le(v, w), lv_chain(v, r, p, q, m, z), ensures lv_chain(w, r, p, q, m, z)
{
    let e = choose|e: StV| #[trigger] seen(e) && exp_rule(r, q, m, e) && if e is Resv { lv_imp(v, r, p, e->Resv_0, z) } else { z == e };
    if e is Resv { m_lv_imp(v, w, r, p, e->Resv_0, z); }
}
proof fn m_lv_found(v: Rels, w: Rels, r: Resolver, p: Pkg, q: Pkg, i: InfoV, m: InfoV, a: StV) requires le(v, w), lv_found(v, r, p, q, i, m, a), ensures lv_found(w, r, p, q, i, m, a)
{
    if lv_chain(v, r, p, q, m, StV::Err(tag())) { m_lv_chain(v, w, r, p, q, m, StV::Err(tag())); }
    if lv_chain(v, r, p, q, m, a) { m_lv_chain(v, w, r, p, q, m, a); }
}
proof fn m_level(v: Rels, w: Rels, r: Resolver, i: InfoV, a: StV) requires le(v, w), level(v, r, i, a), ensures level(w, r, i, a)
{
    assert forall|p: Pkg, q: Pkg, m: InfoV| lv_found(v, r, p, q, i, m, a) implies #[trigger] lv_found(w, r, p, q, i, m, a) by { m_lv_found(v, w, r, p, q, i, m, a); }
}
pub proof fn m_mods(v: Rels, w: Rels, r: Resolver, i: InfoV, x: StV) requires le(v, w), mods_rule(v, r, i, x), ensures mods_rule(w, r, i, x)
{
    if level(v, r, i, StV::Resv(i)) { m_level(v, w, r, i, StV::Resv(i)); }
    if level(v, r, i, x) { m_level(v, w, r, i, x); }
}
proof fn m_browser(v: Rels, w: Rels, r: Resolver, p: Pkg, i: InfoV, x: StV) requires le(v, w), res_browser(v, r, p, i, x), ensures res_browser(w, r, p, i, x) {}
proof fn m_pkg(v: Rels, w: Rels, r: Resolver, i: InfoV, x: StV) requires le(v, w), res_pkg(v, r, i, x), ensures res_pkg(w, r, i, x)
{
    assert forall|p: Pkg, j: InfoV| res_browser(v, r, p, j, x) implies #[trigger] res_browser(w, r, p, j, x) by { m_browser(v, w, r, p, j, x); }
}
proof fn m_after(v: Rels, w: Rels, r: Resolver, i: InfoV, x: StV) requires le(v, w), res_prefer(v, r, i, x), ensures res_prefer(w, r, i, x)
{
    let b = choose|b: StV| #[trigger] seen(b) && prefer_rule(v, r, i, b) && if b is Resv { res_pkg(v, r, b->Resv_0, x) } else { x == b };
    m_prefer(v, w, r, i, b);
    if b is Resv { m_pkg(v, w, r, b->Resv_0, x); }
}
proof fn m_steps(v: Rels, w: Rels, r: Resolver, i: InfoV, x: StV) requires le(v, w), res_steps(v, r, i, x), ensures res_steps(w, r, i, x)
{
    let a = choose|a: StV| #[trigger] seen(a) && alias_rule(v, r, i, a) && if a is Resv { res_prefer(v, r, a->Resv_0, x) } else { x == a };
    m_alias(v, w, r, i, a);
    if a is Resv { m_after(v, w, r, a->Resv_0, x); }
}
pub proof fn m_res(v: Rels, w: Rels, r: Resolver, i: InfoV, x: StV) requires le(v, w), res_rule(v, r, i, x), ensures res_rule(w, r, i, x)
{
    if res_steps(v, r, i, StV::Err(tag())) { m_steps(v, w, r, i, StV::Err(tag())); }
    if res_steps(v, r, i, x) { m_steps(v, w, r, i, x); }
}
/// the relations satisfy their rules
pub broadcast proof fn ax_res(r: Resolver, i: InfoV, out: StV) ensures res_rule(all(r), r, i, out) ==> #[trigger] RES(r, i, out)
{
    if res_rule(all(r), r, i, out) { reveal(RES); assert forall|w: Rels| #[trigger] closed(w, r) implies in_res(w, i, out) by { lem_least(w, r); m_res(all(r), w, r, i, out); } }
}
pub broadcast proof fn ax_dir(r: Resolver, i: InfoV, out: StV) ensures dir_rule(all(r), r, i, out) ==> #[trigger] DIR(r, i, out)
{
    if dir_rule(all(r), r, i, out) { reveal(DIR); assert forall|w: Rels| #[trigger] closed(w, r) implies in_dir(w, i, out) by { lem_least(w, r); m_dir(all(r), w, r, i, out); } }
}
pub broadcast proof fn ax_mods(r: Resolver, i: InfoV, out: StV) ensures mods_rule(all(r), r, i, out) ==> #[trigger] MODS(r, i, out)
{
    if mods_rule(all(r), r, i, out) { reveal(MODS); assert forall|w: Rels| #[trigger] closed(w, r) implies in_mods(w, i, out) by { lem_least(w, r); m_mods(all(r), w, r, i, out); } }
}
pub broadcast proof fn ax_imp(r: Resolver, pk: Pkg, i: InfoV, out: StV) ensures imp_rule(all(r), r, pk, i, out) ==> #[trigger] IMP(r, pk, i, out)
{
    if imp_rule(all(r), r, pk, i, out) { reveal(IMP); assert forall|w: Rels| #[trigger] closed(w, r) implies in_imp(w, pk, i, out) by { lem_least(w, r); m_imp(all(r), w, r, pk, i, out); } }
}
} // mod rel
