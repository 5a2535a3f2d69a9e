// ---------- one answer only: what the rules derive does not depend on cache, thread or history ----------
/// equal, or both a failure for a specific reason
pub open spec fn same(x: StV, y: StV) -> bool { x == y || (reason(x) && reason(y)) }
pub open spec fn msim(a: MappingValue, b: MappingValue) -> bool { exists|v: Value| #[trigger] mv_is(v, a) && mv_is(v, b) }
pub open spec fn osim(a: Option<MappingValue>, b: Option<MappingValue>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => msim(x, y), _ => false } }
/// two trees of one map
#[verifier::opaque] pub open spec fn tsim(t: PathTreeNode, u: PathTreeNode) -> bool { flat(t) && flat(u) && forall|p: Seq<char>, k: KK| osim(#[trigger] tree_get(t, p, k), tree_get(u, p, k)) }
pub open spec fn otsim(t: Option<Arc<PathTreeNode>>, u: Option<Arc<PathTreeNode>>) -> bool { match (t, u) { (None, None) => true, (Some(a), Some(b)) => tsim(*a, *b), _ => false } }
pub open spec fn amsim(a: AliasMap, b: AliasMap) -> bool { match (a, b) { (AliasMap::Ignored, AliasMap::Ignored) => true, (AliasMap::Target(x), AliasMap::Target(y)) => x@ == y@, _ => false } }
pub open spec fn brsim(a: IndexMap<String, AliasMap>, b: IndexMap<String, AliasMap>) -> bool { a.e().len() == b.e().len() && forall|i: int| 0 <= i < a.e().len() ==> (#[trigger] a.e()[i]).0 == b.e()[i].0 && amsim(a.e()[i].1, b.e()[i].1) }
pub open spec fn sesim(a: Option<SideEffects>, b: Option<SideEffects>) -> bool {
    match (a, b) { (None, None) => true, (Some(SideEffects::Bool(x)), Some(SideEffects::Bool(y))) => x == y, (Some(SideEffects::Array(x)), Some(SideEffects::Array(y))) => strs_of(x@) == strs_of(y@), _ => false }
}
/// two descriptions made of one text
pub open spec fn psim(p: PkgFileInfo, q: PkgFileInfo) -> bool {
    &&& p.abs_dir_path@ == q.abs_dir_path@ && p.raw == q.raw && optv(p.name) == optv(q.name) && optv(p.version) == optv(q.version)
    &&& brsim(p.alias_fields, q.alias_fields) && otsim(p.exports_field_tree, q.exports_field_tree) && otsim(p.imports_field_tree, q.imports_field_tree) && sesim(p.side_effects, q.side_effects)
}
pub open spec fn pksim(p: Pkg, q: Pkg) -> bool { match (p, q) { (None, None) => true, (Some(a), Some(b)) => psim(*a, *b), _ => false } }
pub open spec fn lsim(a: LRes, b: LRes) -> bool { match (a, b) { (Ok(x), Ok(y)) => pksim(x, y), (Err(x), Err(y)) => (x@ == tag()) == (y@ == tag()), _ => false } }
/// facts of both do not contradict each other
#[verifier::opaque] pub open spec fn agr(w: Rels, v: Rels) -> bool {
    &&& forall|i: InfoV, x: StV, y: StV| #[trigger] in_res(w, i, x) && #[trigger] in_res(v, i, y) ==> same(x, y)
    &&& forall|i: InfoV, x: StV, y: StV| #[trigger] in_dir(w, i, x) && #[trigger] in_dir(v, i, y) ==> same(x, y)
    &&& forall|i: InfoV, x: StV, y: StV| #[trigger] in_mods(w, i, x) && #[trigger] in_mods(v, i, y) ==> same(x, y)
    &&& forall|p: Pkg, q: Pkg, i: InfoV, x: StV, y: StV| #[trigger] in_imp(w, p, i, x) && #[trigger] in_imp(v, q, i, y) && pksim(p, q) ==> same(x, y)
}
pub open spec fn strs_eq(a: Result<Vec<String>, String>, b: Result<Vec<String>, String>) -> bool { match (a, b) { (Ok(x), Ok(y)) => strs_of(x@) == strs_of(y@), (Err(x), Err(y)) => x@ != tag() && y@ != tag(), _ => false } }
#[verifier::inline] pub open spec fn un<T>(a: Arc<T>) -> T { *a }
#[verifier::inline] pub open spec fn etree(p: PkgFileInfo) -> PathTreeNode { *p.exports_field_tree.unwrap() }
#[verifier::inline] pub open spec fn itree(p: PkgFileInfo) -> PathTreeNode { *p.imports_field_tree.unwrap() }
pub mod det {
use super::*;
pub proof fn d_obj_at(o: IndexMap<String, Value>, n: int, out: Seq<(Seq<char>, MappingValue)>, i: int)
    requires obj_is(o, n, out), 0 <= i < n <= o.e().len(), ensures i < out.len(), out[i].0 == o.e()[i].0, mv_is(o.e()[i].1, out[i].1) decreases n
{ if i < n - 1 { d_obj_at(o, n - 1, out, i); } }
pub proof fn d_cond(o: IndexMap<String, Value>, a: Cond, b: Cond, conds: Set<Seq<char>>, i: int) -> (v: Value)
    requires a.e().len() == o.e().len(), b.e().len() == o.e().len(), obj_is(o, o.e().len() as int, a.e()), obj_is(o, o.e().len() as int, b.e()), 0 <= i,
    ensures match (cond_from(a, conds, i), cond_from(b, conds, i)) { (Sel::Bad, Sel::Bad) => true, (Sel::Miss, Sel::Miss) => true, (Sel::Got(x), Sel::Got(y)) => mv_is(v, x) && mv_is(v, y) && decreases_to!(o => v), _ => false },
    decreases o, o.e().len() - i
{
    let len = o.e().len() as int;
    if i < len {
        d_obj_at(o, len, a.e(), i); d_obj_at(o, len, b.e(), i);
        ax_im_dec(o, i);
        let k = o.e()[i].0; let u = o.e()[i].1;
        if k == k_default() && i != len - 1 { u }
        else if k == k_default() || conds.contains(k) {
            match u {
                Value::Object(p) => {
                    let c = a.e()[i].1->Conditional_0; let d = b.e()[i].1->Conditional_0;
                    let v = d_cond(p, c, d, conds, 0);
                    if cond_from(c, conds, 0) is Miss { d_cond(o, a, b, conds, i + 1) } else { v }
                }
                _ => u,
            }
        } else { d_cond(o, a, b, conds, i + 1) }
    } else { Value::Null }
}
pub proof fn d_tg_exports(v: Value, a: MappingValue, b: MappingValue, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>)
    requires mv_is(v, a), mv_is(v, b), ensures targets_exports(a, rem, sub, conds) == targets_exports(b, rem, sub, conds) decreases v, 0int
{
    match v {
        Value::Null => { let x = a->Array_0; let y = b->Array_0; assert(a == MappingValue::Array(x)); assert(b == MappingValue::Array(y)); assert(tarr_exports(x, rem, sub, conds, 0) == Some(Seq::<Seq<char>>::empty())); assert(tarr_exports(y, rem, sub, conds, 0) == Some(Seq::<Seq<char>>::empty())); assert(targets_exports(a, rem, sub, conds) == tarr_exports(x, rem, sub, conds, x@.len() as int)); assert(targets_exports(b, rem, sub, conds) == tarr_exports(y, rem, sub, conds, y@.len() as int)); }
        Value::Array(l) => { let x = a->Array_0; let y = b->Array_0; assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); d_arr_exports(l, l@.len() as int, x, x@.len() as int, y, y@.len() as int, rem, sub, conds); assert(a == MappingValue::Array(x)); assert(b == MappingValue::Array(y)); assert(targets_exports(a, rem, sub, conds) == tarr_exports(x, rem, sub, conds, x@.len() as int)); assert(targets_exports(b, rem, sub, conds) == tarr_exports(y, rem, sub, conds, y@.len() as int)); assert(targets_exports(a, rem, sub, conds) == targets_exports(b, rem, sub, conds)); }
        Value::Object(o) => { let c = a->Conditional_0; let d = b->Conditional_0; let w = d_cond(o, c, d, conds, 0); if cond_from(c, conds, 0) is Got { d_tg_exports(w, cond_from(c, conds, 0)->Got_0, cond_from(d, conds, 0)->Got_0, rem, sub, conds); } assert(a == MappingValue::Conditional(c)); assert(b == MappingValue::Conditional(d));
            assert(targets_exports(a, rem, sub, conds) == match cond_from(c, conds, 0) { Sel::Bad => None, Sel::Miss => Some(seq![]), Sel::Got(x) => targets_exports(x, rem, sub, conds) }); assert(targets_exports(b, rem, sub, conds) == match cond_from(d, conds, 0) { Sel::Bad => None, Sel::Miss => Some(seq![]), Sel::Got(x) => targets_exports(x, rem, sub, conds) }); assert(targets_exports(a, rem, sub, conds) == targets_exports(b, rem, sub, conds)); }
        Value::String(t) => { let x = a->Direct_0; let y = b->Direct_0; assert(x@ == y@); assert(subst_exports(rem, sub, x@) == subst_exports(rem, sub, y@)); assert(targets_exports(a, rem, sub, conds) == targets_exports(b, rem, sub, conds)); }
        _ => {}
    }
}
proof fn d_arr_exports(l: Vec<Value>, n: int, a: Vec<AvailableMapping>, ka: int, b: Vec<AvailableMapping>, kb: int, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>)
    requires 0 <= ka <= a@.len(), 0 <= kb <= b@.len(), arr_is(l, n, a@.take(ka)), arr_is(l, n, b@.take(kb)),
    ensures ka == kb, tarr_exports(a, rem, sub, conds, ka) == tarr_exports(b, rem, sub, conds, kb) decreases l, n
{
    if 0 < n <= l@.len() {
        assert(decreases_to!(l => l@[n - 1]));
        match l@[n - 1] {
            Value::Null => { d_arr_exports(l, n - 1, a, ka, b, kb, rem, sub, conds); }
            x => {
                assert(a@.take(ka).drop_last() =~= a@.take(ka - 1)); assert(b@.take(kb).drop_last() =~= b@.take(kb - 1));
                d_arr_exports(l, n - 1, a, ka - 1, b, kb - 1, rem, sub, conds);
                assert(a@.take(ka).last() == a@[ka - 1]); assert(b@.take(kb).last() == b@[kb - 1]);
                d_tg_exports(l@[n - 1], am_mv(a@[ka - 1]), am_mv(b@[kb - 1]), rem, sub, conds);
                assert(tam_exports(a@[ka - 1], rem, sub, conds) == targets_exports(am_mv(a@[ka - 1]), rem, sub, conds));
                assert(tam_exports(b@[kb - 1], rem, sub, conds) == targets_exports(am_mv(b@[kb - 1]), rem, sub, conds));
            }
        }
    }
}
pub proof fn d_fp_exports(t: PathTreeNode, u: PathTreeNode, x: Seq<char>, conds: Set<Seq<char>>, k: Result<Vec<String>, String>, l: Result<Vec<String>, String>)
    requires tsim(t, u), fp_exports(t, x, conds, k), fp_exports(u, x, conds, l), ensures strs_eq(k, l)
{
    reveal(fp_exports);
    match req_exports(x) { None => {}, Some(req) => {
        d_best(t, u, req);
        match best_match(t, req) {
            None => { assert(strs_of(k->Ok_0@) =~= strs_of(l->Ok_0@)); }
            Some(h) => {
                let g = best_match(u, req)->Some_0;
                let (r1, b1) = choose|x: Option<Seq<char>>, b: bool| #[trigger] tg_exports(h.0, x, b, conds, k) && b == (h.1 < 0) && same_rest(x, rest_of(req, h.1));
                let (r2, b2) = choose|x: Option<Seq<char>>, b: bool| #[trigger] tg_exports(g.0, x, b, conds, l) && b == (g.1 < 0) && same_rest(x, rest_of(req, g.1));
                assert(tg_exports(h.0, r1, b1, conds, k)); assert(tg_exports(g.0, r2, b2, conds, l));
                assert(r1 == r2) by { match (r1, r2) { (Some(a), Some(b)) => { assert(a =~= b); } _ => {} } }
                let v = choose|v: Value| #[trigger] mv_is(v, h.0) && mv_is(v, g.0);
                assert(mv_is(v, h.0) && mv_is(v, g.0));
                d_tg_exports(v, h.0, g.0, r1, b1, conds);
                if k is Ok { assert(strs_of(k->Ok_0@) =~= strs_of(l->Ok_0@)); }
            }
        }
    } }
}
pub proof fn d_tg_imports(v: Value, a: MappingValue, b: MappingValue, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>)
    requires mv_is(v, a), mv_is(v, b), ensures targets_imports(a, rem, sub, conds) == targets_imports(b, rem, sub, conds) decreases v, 0int
{
    match v {
        Value::Null => { let x = a->Array_0; let y = b->Array_0; assert(a == MappingValue::Array(x)); assert(b == MappingValue::Array(y)); assert(tarr_imports(x, rem, sub, conds, 0) == Some(Seq::<Seq<char>>::empty())); assert(tarr_imports(y, rem, sub, conds, 0) == Some(Seq::<Seq<char>>::empty())); assert(targets_imports(a, rem, sub, conds) == tarr_imports(x, rem, sub, conds, x@.len() as int)); assert(targets_imports(b, rem, sub, conds) == tarr_imports(y, rem, sub, conds, y@.len() as int)); }
        Value::Array(l) => { let x = a->Array_0; let y = b->Array_0; assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); d_arr_imports(l, l@.len() as int, x, x@.len() as int, y, y@.len() as int, rem, sub, conds); assert(a == MappingValue::Array(x)); assert(b == MappingValue::Array(y)); assert(targets_imports(a, rem, sub, conds) == tarr_imports(x, rem, sub, conds, x@.len() as int)); assert(targets_imports(b, rem, sub, conds) == tarr_imports(y, rem, sub, conds, y@.len() as int)); assert(targets_imports(a, rem, sub, conds) == targets_imports(b, rem, sub, conds)); }
        Value::Object(o) => { let c = a->Conditional_0; let d = b->Conditional_0; let w = d_cond(o, c, d, conds, 0); if cond_from(c, conds, 0) is Got { d_tg_imports(w, cond_from(c, conds, 0)->Got_0, cond_from(d, conds, 0)->Got_0, rem, sub, conds); } assert(a == MappingValue::Conditional(c)); assert(b == MappingValue::Conditional(d));
            assert(targets_imports(a, rem, sub, conds) == match cond_from(c, conds, 0) { Sel::Bad => None, Sel::Miss => Some(seq![]), Sel::Got(x) => targets_imports(x, rem, sub, conds) }); assert(targets_imports(b, rem, sub, conds) == match cond_from(d, conds, 0) { Sel::Bad => None, Sel::Miss => Some(seq![]), Sel::Got(x) => targets_imports(x, rem, sub, conds) }); assert(targets_imports(a, rem, sub, conds) == targets_imports(b, rem, sub, conds)); }
        Value::String(t) => { let x = a->Direct_0; let y = b->Direct_0; assert(x@ == y@); assert(subst_imports(rem, sub, x@) == subst_imports(rem, sub, y@)); assert(targets_imports(a, rem, sub, conds) == targets_imports(b, rem, sub, conds)); }
        _ => {}
    }
}
proof fn d_arr_imports(l: Vec<Value>, n: int, a: Vec<AvailableMapping>, ka: int, b: Vec<AvailableMapping>, kb: int, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>)
    requires 0 <= ka <= a@.len(), 0 <= kb <= b@.len(), arr_is(l, n, a@.take(ka)), arr_is(l, n, b@.take(kb)),
    ensures ka == kb, tarr_imports(a, rem, sub, conds, ka) == tarr_imports(b, rem, sub, conds, kb) decreases l, n
{
    if 0 < n <= l@.len() {
        assert(decreases_to!(l => l@[n - 1]));
        match l@[n - 1] {
            Value::Null => { d_arr_imports(l, n - 1, a, ka, b, kb, rem, sub, conds); }
            x => {
                assert(a@.take(ka).drop_last() =~= a@.take(ka - 1)); assert(b@.take(kb).drop_last() =~= b@.take(kb - 1));
                d_arr_imports(l, n - 1, a, ka - 1, b, kb - 1, rem, sub, conds);
                assert(a@.take(ka).last() == a@[ka - 1]); assert(b@.take(kb).last() == b@[kb - 1]);
                d_tg_imports(l@[n - 1], am_mv(a@[ka - 1]), am_mv(b@[kb - 1]), rem, sub, conds);
                assert(tam_imports(a@[ka - 1], rem, sub, conds) == targets_imports(am_mv(a@[ka - 1]), rem, sub, conds));
                assert(tam_imports(b@[kb - 1], rem, sub, conds) == targets_imports(am_mv(b@[kb - 1]), rem, sub, conds));
            }
        }
    }
}
pub proof fn d_fp_imports(t: PathTreeNode, u: PathTreeNode, x: Seq<char>, conds: Set<Seq<char>>, k: Result<Vec<String>, String>, l: Result<Vec<String>, String>)
    requires tsim(t, u), fp_imports(t, x, conds, k), fp_imports(u, x, conds, l), ensures strs_eq(k, l)
{
    reveal(fp_imports);
    match req_imports(x) { None => {}, Some(req) => {
        d_best(t, u, req);
        match best_match(t, req) {
            None => { assert(strs_of(k->Ok_0@) =~= strs_of(l->Ok_0@)); }
            Some(h) => {
                let g = best_match(u, req)->Some_0;
                let (r1, b1) = choose|x: Option<Seq<char>>, b: bool| #[trigger] tg_imports(h.0, x, b, conds, k) && b == (h.1 < 0) && same_rest(x, rest_of(req, h.1));
                let (r2, b2) = choose|x: Option<Seq<char>>, b: bool| #[trigger] tg_imports(g.0, x, b, conds, l) && b == (g.1 < 0) && same_rest(x, rest_of(req, g.1));
                assert(tg_imports(h.0, r1, b1, conds, k)); assert(tg_imports(g.0, r2, b2, conds, l));
                assert(r1 == r2) by { match (r1, r2) { (Some(a), Some(b)) => { assert(a =~= b); } _ => {} } }
                let v = choose|v: Value| #[trigger] mv_is(v, h.0) && mv_is(v, g.0);
                assert(mv_is(v, h.0) && mv_is(v, g.0));
                d_tg_imports(v, h.0, g.0, r1, b1, conds);
                if k is Ok { assert(strs_of(k->Ok_0@) =~= strs_of(l->Ok_0@)); }
            }
        }
    } }
}
proof fn d_keys(exports: bool, o: IndexMap<String, Value>, a: Seq<(Seq<char>, MappingValue)>, b: Seq<(Seq<char>, MappingValue)>, p: Seq<char>, k: KK, n: int)
    requires obj_is(o, o.e().len() as int, a), obj_is(o, o.e().len() as int, b), n <= o.e().len(), ensures osim(keys_get(exports, a, p, k, n), keys_get(exports, b, p, k, n)) decreases n
{
    if n > 0 { d_obj_at(o, o.e().len() as int, a, n - 1); d_obj_at(o, o.e().len() as int, b, n - 1); d_keys(exports, o, a, b, p, k, n - 1); assert(mv_is(o.e()[n - 1].1, a[n - 1].1)); }
}
proof fn d_tree_keys(exports: bool, o: IndexMap<String, Value>, a: MappingValue, b: MappingValue, t: PathTreeNode, u: PathTreeNode)
    requires mv_is(Value::Object(o), a), mv_is(Value::Object(o), b), flat(t), flat(u), tree_keys(exports, cond_e(a), o.e().len() as int, t), tree_keys(exports, cond_e(b), o.e().len() as int, u), ensures tsim(t, u)
{
    reveal(tree_keys); reveal(tsim);
    assert forall|p: Seq<char>, k: KK| osim(#[trigger] tree_get(t, p, k), tree_get(u, p, k)) by { d_keys(exports, o, cond_e(a), cond_e(b), p, k, o.e().len() as int); }
}
proof fn d_tree_one(v: Value, a: MappingValue, b: MappingValue, t: PathTreeNode, u: PathTreeNode)
    requires mv_is(v, a), mv_is(v, b), flat(t), flat(u), tree_one(a, t), tree_one(b, u), ensures tsim(t, u)
{ reveal(tree_one); reveal(tsim); }
pub proof fn d_tree_exports(v: Value, t: PathTreeNode, u: PathTreeNode) requires tree_exports(v, t), tree_exports(v, u), ensures tsim(t, u)
{
    let a = choose|m: MappingValue| #[trigger] mv_is(v, m) && match v { Value::Object(o) => if is_cond(o) { tree_one(m, t) } else { tree_keys(true, cond_e(m), o.e().len() as int, t) }, _ => tree_one(m, t) };
    let b = choose|m: MappingValue| #[trigger] mv_is(v, m) && match v { Value::Object(o) => if is_cond(o) { tree_one(m, u) } else { tree_keys(true, cond_e(m), o.e().len() as int, u) }, _ => tree_one(m, u) };
    match v { Value::Object(o) => if is_cond(o) { d_tree_one(v, a, b, t, u); } else { d_tree_keys(true, o, a, b, t, u); }, _ => { d_tree_one(v, a, b, t, u); } }
}
pub proof fn d_tree_imports(v: Value, t: PathTreeNode, u: PathTreeNode) requires tree_imports(v, t), tree_imports(v, u), ensures tsim(t, u)
{
    let a = choose|m: MappingValue| #[trigger] mv_is(v, m) && v is Object && tree_keys(false, cond_e(m), v->Object_0.e().len() as int, t);
    let b = choose|m: MappingValue| #[trigger] mv_is(v, m) && v is Object && tree_keys(false, cond_e(m), v->Object_0.e().len() as int, u);
    d_tree_keys(false, v->Object_0, a, b, t, u);
}
pub open spec fn hsim(a: Hit, b: Hit) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.1 == y.1 && msim(x.0, y.0), _ => false } }
proof fn d_upto(t: PathTreeNode, u: PathTreeNode, req: Seq<char>, n: int) requires tsim(t, u), ensures hsim(best_upto(t, req, n), best_upto(u, req, n)) decreases n
{
    if n > 0 {
        reveal(tsim);
        d_upto(t, u, req, n - 1);
        assert(osim(tree_get(t, req.take(n - 1), KK::Wild), tree_get(u, req.take(n - 1), KK::Wild)));
        assert(osim(tree_get(t, req.take(n - 1), KK::Folder), tree_get(u, req.take(n - 1), KK::Folder)));
    }
}
proof fn d_exact(t: PathTreeNode, req: Seq<char>) requires flat(t), ensures exact(t, req) == tree_get(t, req, KK::File)
{
    reveal(flat); lemma_first_of(req, '/');
    if t.children is None && t.folder is None && t.wildcards is None {
        if first_of(req, '/') < req.len() { assert(req.contains(req[first_of(req, '/')])); assert(im_get(t.files, req) is None); }
    }
}
proof fn d_best(t: PathTreeNode, u: PathTreeNode, req: Seq<char>) requires tsim(t, u), ensures hsim(best_match(t, req), best_match(u, req))
{
    d_upto(t, u, req, req.len() + 1int);
    assert(flat(t) && flat(u)) by { reveal(tsim); }
    d_exact(t, req); d_exact(u, req);
    assert(osim(tree_get(t, req, KK::File), tree_get(u, req, KK::File))) by { reveal(tsim); }
    if req.len() == 0 { lemma_first_of(req, '/'); assert(im_get(t.files, req) == tree_get(t, req, KK::File)); assert(im_get(u.files, req) == tree_get(u, req, KK::File)); }
}
// ---------- descriptions ----------
pub proof fn d_says(t: Seq<char>, p: PkgFileInfo, q: PkgFileInfo) requires says(t, p), says(t, q), p.abs_dir_path@ == q.abs_dir_path@, ensures psim(p, q)
{
    let j = p.raw;
    assert(optv(p.name) == optv(q.name)); assert(optv(p.version) == optv(q.version));
    match map_value(j, key_exports()) { Some(v) => { d_tree_exports(v, un(p.exports_field_tree->Some_0), un(q.exports_field_tree->Some_0)); } None => {} }
    match map_value(j, key_imports()) { Some(v) => { d_tree_imports(v, un(p.imports_field_tree->Some_0), un(q.imports_field_tree->Some_0)); } None => {} }
    assert(brsim(p.alias_fields, q.alias_fields));
    assert(sesim(p.side_effects, q.side_effects)) by {
        match (p.side_effects, q.side_effects) { (Some(SideEffects::Array(x)), Some(SideEffects::Array(y))) => {
            let l = vget(j, key_side())->Some_0->Array_0;
            assert forall|i: int| 0 <= i < x@.len() implies x@[i]@ == y@[i]@ by { assert(vstr(l@[i]) == Some(x@[i]@)); }
            assert(strs_of(x@) =~= strs_of(y@));
        } _ => {} }
    }
}
pub proof fn d_gov(name: Option<Seq<char>>, path: Seq<char>, a: LRes, b: LRes) requires governed(name, path, a), governed(name, path, b), ensures lsim(a, b) decreases path.len()
{
    ax_parent(path);
    match name { None => {}, Some(n) => if !fs_is_dir(path) { match p_parent(path) { Some(d) => { d_gov(name, d, a, b); } None => {} } } else {
        lem_gov(n, path);
        match gov_dir(n, path) { None => {}, Some(d) => if fs_is_dir(d) { 
            match (a, b) { (Ok(Some(p)), Ok(Some(q))) => { d_says(fs_text(p_join(d, n)).unwrap(), un(p), un(q)); }, _ => {} }
        } else { d_gov(name, d, a, b); } }
    } }
}
pub proof fn d_pkg(r: Resolver, s: Resolver, path: Seq<char>, a: LRes, b: LRes) requires r.options == s.options, pkg_rel(r, path, a), pkg_rel(s, path, b), ensures lsim(a, b)
{ reveal(pkg_rel); d_gov(optv(r.options.description_file), path, a, b); }
// ---------- browser field ----------
proof fn d_br_at(a: IndexMap<String, AliasMap>, b: IndexMap<String, AliasMap>, k: Seq<char>)
    requires brsim(a, b), ensures a.m().dom().contains(k) == b.m().dom().contains(k), a.m().dom().contains(k) ==> amsim(a.m()[k], b.m()[k])
{
    ax_im_nodup(a); ax_im_nodup(b); ax_im_dom(a, k); ax_im_dom(b, k);
    if a.m().dom().contains(k) { let i = choose|i: int| 0 <= i < a.e().len() && (#[trigger] a.e()[i]).0 == k && a.e()[i].1 == a.m()[k]; assert(a.e()[i].0 == k); ax_im_entries(b, i); }
    if b.m().dom().contains(k) { let i = choose|i: int| 0 <= i < b.e().len() && (#[trigger] b.e()[i]).0 == k && b.e()[i].1 == b.m()[k]; assert(b.e()[i].0 == k); assert(a.e()[i].0 == k); ax_im_entries(a, i); }
}
proof fn d_chase(a: IndexMap<String, AliasMap>, b: IndexMap<String, AliasMap>, x: AliasMap, y: AliasMap, n: nat)
    requires brsim(a, b), amsim(x, y), ensures amsim(br_chase(a.m(), x, n), br_chase(b.m(), y, n)) decreases n
{
    if n > 0 { match (x, y) { (AliasMap::Target(k), AliasMap::Target(l)) => { d_br_at(a, b, k@); if a.m().dom().contains(k@) { d_chase(a, b, a.m()[k@], b.m()[k@], (n - 1) as nat); } } _ => {} } }
}
proof fn d_br_from(o: ResolverOptions, p: PkgFileInfo, q: PkgFileInfo, i: InfoV, k: int)
    requires psim(p, q), ensures br_from(o, p, i, k) == br_from(o, q, i, k) decreases p.alias_fields.e().len() - k
{
    if 0 <= k < p.alias_fields.e().len() {
        assert(p.alias_fields.e()[k].0 == q.alias_fields.e()[k].0);
        d_chase(p.alias_fields, q.alias_fields, p.alias_fields.e()[k].1, q.alias_fields.e()[k].1, p.alias_fields.e().len());
        d_br_from(o, p, q, i, k + 1);
    }
}
pub proof fn d_br(o: ResolverOptions, p: Pkg, q: Pkg, i: InfoV) requires pksim(p, q), ensures br_st(o, p, i) == br_st(o, q, i)
{ match (p, q) { (Some(a), Some(b)) => { d_br_from(o, un(a), un(b), i, 0); } _ => {} } }
// ---------- the steps ----------
proof fn d_file_dir(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, file_dir(w, r, i, x), file_dir(v, s, i, y), ensures same(x, y) { reveal(agr); }
proof fn d_mf_one(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, j: InfoV, t: Seq<char>, x: StV, y: StV)
    requires agr(w, v), r.options == s.options, pksim(p, q), mf_one(w, r, p, j, t, x), mf_one(v, s, q, j, t, y), ensures same(x, y)
{ d_br(r.options, p, q, retarget(j, mf_target(t))); let b = br_st(r.options, p, retarget(j, mf_target(t))); if b is Resv { d_file_dir(w, v, r, s, b->Resv_0, x, y); } }
proof fn d_mf_before(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, j: InfoV, x: StV, n: int, m: int, y: StV)
    requires agr(w, v), r.options == s.options, pksim(p, q), p is Some, mfield_at(w, r, p, j, x, n), mfield_at(v, s, q, j, y, m), n < m, ensures false
{
    assert(mf_pass(v, s, q, j, n));
    let t = mf_value(un(q.unwrap()), s.options.main_fields@[n]@)->Some_0;
    let z = choose|z: StV| #[trigger] seen(z) && mf_one(v, s, q, j, t, z) && !succ(z);
    d_mf_one(w, v, r, s, p, q, j, t, x, z);
}
proof fn d_mf_after(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, j: InfoV, x: StV, n: int, m: int, y: StV)
    requires agr(w, v), r.options == s.options, pksim(p, q), p is Some, mfield_at(w, r, p, j, x, n), mfield_at(v, s, q, j, y, m), m < n, ensures false
{
    assert(mf_pass(w, r, p, j, m));
    let t = mf_value(un(p.unwrap()), r.options.main_fields@[m]@)->Some_0;
    let z = choose|z: StV| #[trigger] seen(z) && mf_one(w, r, p, j, t, z) && !succ(z);
    d_mf_one(w, v, r, s, p, q, j, t, z, y);
}
proof fn d_mfield(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, j: InfoV, x: StV, y: StV)
    requires agr(w, v), r.options == s.options, pksim(p, q), mfield_rule(w, r, p, j, x), mfield_rule(v, s, q, j, y), ensures same(x, y)
{
    if !(p.is_none() || !p_eq(j.path, p.unwrap().abs_dir_path@)) {
        let n = choose|n: int| #[trigger] vx_idx(n) && mfield_at(w, r, p, j, x, n);
        let m = choose|n: int| #[trigger] vx_idx(n) && mfield_at(v, s, q, j, y, n);
        if n < m { d_mf_before(w, v, r, s, p, q, j, x, n, m, y); }
        if m < n { d_mf_after(w, v, r, s, p, q, j, x, n, m, y); }
        if n < r.options.main_fields@.len() { let t = mf_value(un(p.unwrap()), r.options.main_fields@[n]@)->Some_0; if !mf_stop(t) { d_mf_one(w, v, r, s, p, q, j, t, x, y); } }
    }
}
proof fn d_mn(r: Resolver, s: Resolver, p: Pkg, q: Pkg, j: InfoV, k: int) requires r.options == s.options, pksim(p, q), ensures mn_from(r, p, j, k) == mn_from(s, q, j, k) decreases r.options.main_files@.len() - k
{ if 0 <= k < r.options.main_files@.len() { d_br(r.options, p, q, retarget(j, dot_slash(r.options.main_files@[k]@))); d_mn(r, s, p, q, j, k + 1); } }
proof fn d_dir_rest(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, j: InfoV, x: StV, y: StV)
    requires agr(w, v), r.options == s.options, pksim(p, q), dir_rest(w, r, p, j, x), dir_rest(v, s, q, j, y), ensures same(x, y)
{
    let a = choose|a: StV| #[trigger] seen(a) && mfield_rule(w, r, p, j, a) && if a is Resv { let b = mn_from(r, p, a->Resv_0, 0); x == (if b is Resv { StV::Err(tag()) } else { b }) } else { x == a };
    let c = choose|a: StV| #[trigger] seen(a) && mfield_rule(v, s, q, j, a) && if a is Resv { let b = mn_from(s, q, a->Resv_0, 0); y == (if b is Resv { StV::Err(tag()) } else { b }) } else { y == a };
    d_mfield(w, v, r, s, p, q, j, a, c);
    if a is Resv { d_mn(r, s, p, q, a->Resv_0, 0); }
}
proof fn d_dir(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, dir_rule(w, r, i, x), dir_rule(v, s, i, y), ensures same(x, y)
{
    let d = at_v(i);
    if fs_is_dir(d) {
        let j = InfoV { path: d, target: Seq::empty(), ..i };
        let (c, p) = choose|y: Seq<char>, pk: LRes| #[trigger] pkg_rel(r, y, pk) && y =~= d && match pk { Err(e) => x == StV::Err(e@), Ok(p) => dir_rest(w, r, p, j, x) };
        let (e, q) = choose|x: Seq<char>, pk: LRes| #[trigger] pkg_rel(s, x, pk) && x =~= d && match pk { Err(e) => y == StV::Err(e@), Ok(p) => dir_rest(v, s, p, j, y) };
        assert(pkg_rel(r, c, p)); assert(pkg_rel(s, e, q)); assert(c == d && e == d);
        d_pkg(r, s, d, p, q);
        match (p, q) { (Ok(a), Ok(b)) => { d_dir_rest(w, v, r, s, a, b, j, x, y); } _ => {} }
    }
}
proof fn d_al_before(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, n: int, m: int, y: StV) requires agr(w, v), r.options == s.options, al_at(w, r, i, x, n), al_at(v, s, i, y, m), n < m, ensures false
{ reveal(agr); assert(al_pass(v, s, i, n)); }
proof fn d_al_after(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, n: int, m: int, y: StV) requires agr(w, v), r.options == s.options, al_at(w, r, i, x, n), al_at(v, s, i, y, m), m < n, ensures false
{ reveal(agr); assert(al_pass(w, r, i, m)); }
proof fn d_alias(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, alias_rule(w, r, i, x), alias_rule(v, s, i, y), ensures same(x, y)
{
    if !inside_modules(i.path) {
        let n = choose|n: int| #[trigger] vx_idx(n) && al_at(w, r, i, x, n);
        let m = choose|n: int| #[trigger] vx_idx(n) && al_at(v, s, i, y, n);
        if n < m { d_al_before(w, v, r, s, i, x, n, m, y); }
        if m < n { d_al_after(w, v, r, s, i, x, n, m, y); }
        reveal(agr);
    }
}
proof fn d_prefer(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, prefer_rule(w, r, i, x), prefer_rule(v, s, i, y), ensures same(x, y) { reveal(agr); }
proof fn d_pick(dir: Seq<char>, k: Seq<String>, l: Seq<String>, x: StV, y: StV, n: int, m: int) requires strs_of(k) == strs_of(l), exp_pick(dir, k, x, n), exp_pick(dir, l, y, m), ensures same(x, y)
{
    assert(k.len() == strs_of(k).len() && l.len() == strs_of(l).len());
    assert forall|a: int| 0 <= a < k.len() implies (#[trigger] k[a])@ == l[a]@ by { assert(strs_of(k)[a] == strs_of(l)[a]); }
    if n < m { assert(!usable(dir, l[n]@)); assert(k[n]@ == l[n]@); }
    if m < n { assert(!usable(dir, k[m]@)); }
}
proof fn d_exp(r: Resolver, s: Resolver, p: Pkg, q: Pkg, i: InfoV, x: StV, y: StV) requires r.options == s.options, pksim(p, q), exp_rule(r, p, i, x), exp_rule(s, q, i, y), ensures same(x, y)
{
    if exp_applies(p, i) {
        let a = p.unwrap(); let b = q.unwrap();
        match exp_sub(un(a), i) { None => {}, Some(sub) => {
            let (c, k) = choose|t: Seq<char>, l: Result<Vec<String>, String>| #[trigger] fp_exports(etree(un(a)), t, r.options.condition_names@, l) && t =~= sub && match l { Err(e) => x == StV::Err(e@) && e@ != tag(), Ok(list) => exists|n: int| #[trigger] vx_idx(n) && exp_pick(a.abs_dir_path@, list@, x, n) };
            let (d, l) = choose|t: Seq<char>, l: Result<Vec<String>, String>| #[trigger] fp_exports(etree(un(b)), t, s.options.condition_names@, l) && t =~= sub && match l { Err(e) => y == StV::Err(e@) && e@ != tag(), Ok(list) => exists|n: int| #[trigger] vx_idx(n) && exp_pick(b.abs_dir_path@, list@, y, n) };
            assert(fp_exports(etree(un(a)), c, r.options.condition_names@, k)); assert(fp_exports(etree(un(b)), d, s.options.condition_names@, l)); assert(c == sub && d == sub);
            d_fp_exports(etree(un(a)), etree(un(b)), sub, r.options.condition_names@, k, l);
            match (k, l) { (Ok(f), Ok(g)) => {
                let n = choose|n: int| #[trigger] vx_idx(n) && exp_pick(a.abs_dir_path@, f@, x, n); let m = choose|n: int| #[trigger] vx_idx(n) && exp_pick(b.abs_dir_path@, g@, y, n);
                d_pick(a.abs_dir_path@, f@, g@, x, y, n, m);
            } _ => {} }
        } }
    }
}
proof fn d_imp(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, pksim(p, q), imp_rule(w, r, p, i, x), imp_rule(v, s, q, i, y), ensures same(x, y)
{
    if imp_applies(p, i) {
        let a = p.unwrap(); let b = q.unwrap();
        let k = choose|l: Result<Vec<String>, String>| #[trigger] fp_imports(itree(un(a)), i.target, r.options.condition_names@, l) && match l { Err(e) => x == StV::Err(e@) && e@ != tag(), Ok(list) => if list@.len() == 0 { reason(x) } else { let c = item_info(a.abs_dir_path@, list@[0]@); match kindv(c) { PathKind::Normal => x == StV::Resv(c), PathKind::Internal => in_imp(w, p, c, x), _ => if usable(a.abs_dir_path@, list@[0]@) { x == StV::Resv(c) } else { reason(x) }, } } };
        let l = choose|l: Result<Vec<String>, String>| #[trigger] fp_imports(itree(un(b)), i.target, s.options.condition_names@, l) && match l { Err(e) => y == StV::Err(e@) && e@ != tag(), Ok(list) => if list@.len() == 0 { reason(y) } else { let c = item_info(b.abs_dir_path@, list@[0]@); match kindv(c) { PathKind::Normal => y == StV::Resv(c), PathKind::Internal => in_imp(v, q, c, y), _ => if usable(b.abs_dir_path@, list@[0]@) { y == StV::Resv(c) } else { reason(y) }, } } };
        assert(fp_imports(itree(un(a)), i.target, r.options.condition_names@, k)); assert(fp_imports(itree(un(b)), i.target, s.options.condition_names@, l));
        d_fp_imports(itree(un(a)), itree(un(b)), i.target, r.options.condition_names@, k, l);
        match (k, l) { (Ok(f), Ok(g)) => {
            assert(f@.len() == strs_of(f@).len() && g@.len() == strs_of(g@).len());
            if f@.len() > 0 { assert(strs_of(f@)[0] == strs_of(g@)[0]); }
            reveal(agr);
        } _ => {} }
    }
}
proof fn d_lv_tail(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, pksim(p, q), lv_tail(w, r, p, i, x), lv_tail(v, s, q, i, y), ensures same(x, y)
{ d_br(r.options, p, q, bare_to_rel(i)); let b = br_st(r.options, p, bare_to_rel(i)); if b is Resv { d_file_dir(w, v, r, s, b->Resv_0, x, y); } }
proof fn d_lv_imp(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, pksim(p, q), lv_imp(w, r, p, i, x), lv_imp(v, s, q, i, y), ensures same(x, y)
{
    let a = choose|f: StV| #[trigger] seen(f) && in_imp(w, p, i, f) && if f is Resv { lv_tail(w, r, p, f->Resv_0, x) } else { x == f };
    let b = choose|f: StV| #[trigger] seen(f) && in_imp(v, q, i, f) && if f is Resv { lv_tail(v, s, q, f->Resv_0, y) } else { y == f };
    assert(same(a, b)) by { reveal(agr); }
    if a is Resv { d_lv_tail(w, v, r, s, p, q, a->Resv_0, x, y); }
}
proof fn d_lv_chain(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, p2: Pkg, q2: Pkg, m: InfoV, x: StV, y: StV)
    requires agr(w, v), r.options == s.options, pksim(p, p2), pksim(q, q2), lv_chain(w, r, p, q, m, x), lv_chain(v, s, p2, q2, m, y), ensures same(x, y)
{
    let a = choose|e: StV| #[trigger] seen(e) && exp_rule(r, q, m, e) && if e is Resv { lv_imp(w, r, p, e->Resv_0, x) } else { x == e };
    let b = choose|e: StV| #[trigger] seen(e) && exp_rule(s, q2, m, e) && if e is Resv { lv_imp(v, s, p2, e->Resv_0, y) } else { y == e };
    d_exp(r, s, q, q2, m, a, b);
    if a is Resv { d_lv_imp(w, v, r, s, p, p2, a->Resv_0, x, y); }
}
proof fn d_lv_found(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, p2: Pkg, q2: Pkg, i: InfoV, m: InfoV, x: StV, y: StV)
    requires agr(w, v), r.options == s.options, pksim(p, p2), pksim(q, q2), lv_found(w, r, p, q, i, m, x), lv_found(v, s, p2, q2, i, m, y), ensures same(x, y)
{
    let t = StV::Err(tag());
    if lv_chain(w, r, p, q, m, t) && lv_chain(v, s, p2, q2, m, y) { d_lv_chain(w, v, r, s, p, q, p2, q2, m, t, y); }
    if lv_chain(w, r, p, q, m, x) && lv_chain(v, s, p2, q2, m, t) { d_lv_chain(w, v, r, s, p, q, p2, q2, m, x, t); }
    if lv_chain(w, r, p, q, m, x) && lv_chain(v, s, p2, q2, m, y) { d_lv_chain(w, v, r, s, p, q, p2, q2, m, x, y); }
}
pub open spec fn lv_in(w: Rels, r: Resolver, i: InfoV, p: Pkg, a: StV) -> bool {
    let root = p_join(i.path, modules_dir());
    exists|y: Seq<char>, qk: LRes| #[trigger] pkg_rel(r, y, qk) && y =~= p_join(root, name_of(i.target)) && match qk { Err(e) => a == StV::Err(e@), Ok(q) => lv_found(w, r, p, q, i, repath(i, root), a) }
}
proof fn d_lv_in(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, p: Pkg, p2: Pkg, x: StV, y: StV) requires agr(w, v), r.options == s.options, pksim(p, p2), lv_in(w, r, i, p, x), lv_in(v, s, i, p2, y), ensures same(x, y)
{
    let root = p_join(i.path, modules_dir()); let d = p_join(root, name_of(i.target));
    let (c, k) = choose|y: Seq<char>, qk: LRes| #[trigger] pkg_rel(r, y, qk) && y =~= d && match qk { Err(e) => x == StV::Err(e@), Ok(q) => lv_found(w, r, p, q, i, repath(i, root), x) };
    let (e, l) = choose|z: Seq<char>, qk: LRes| #[trigger] pkg_rel(s, z, qk) && z =~= d && match qk { Err(e) => y == StV::Err(e@), Ok(q) => lv_found(v, s, p2, q, i, repath(i, root), y) };
    assert(pkg_rel(r, c, k)); assert(pkg_rel(s, e, l)); assert(c == d && e == d);
    d_pkg(r, s, d, k, l);
    match (k, l) { (Ok(a), Ok(b)) => { d_lv_found(w, v, r, s, p, a, p2, b, i, repath(i, root), x, y); } _ => {} }
}
proof fn d_level(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, level(w, r, i, x), level(v, s, i, y), ensures same(x, y)
{
    let root = p_join(i.path, modules_dir()); let d = p_join(root, i.target);
    if fs_is_dir(root) {
        let (c, k) = choose|z: Seq<char>, pk: LRes| #[trigger] pkg_rel(r, z, pk) && z =~= d && match pk { Err(e) => x == StV::Err(e@), Ok(p) => lv_in(w, r, i, p, x) };
        let (e, l) = choose|z: Seq<char>, pk: LRes| #[trigger] pkg_rel(s, z, pk) && z =~= d && match pk { Err(e) => y == StV::Err(e@), Ok(p) => lv_in(v, s, i, p, y) };
        assert(pkg_rel(r, c, k)); assert(pkg_rel(s, e, l)); assert(c == d && e == d);
        d_pkg(r, s, d, k, l);
        match (k, l) { (Ok(a), Ok(b)) => { d_lv_in(w, v, r, s, i, a, b, x, y); } _ => {} }
    }
}
proof fn d_mods(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, mods_rule(w, r, i, x), mods_rule(v, s, i, y), ensures same(x, y)
{
    let t = StV::Resv(i);
    if level(w, r, i, t) && level(v, s, i, y) { d_level(w, v, r, s, i, t, y); }
    if level(w, r, i, x) && level(v, s, i, t) { d_level(w, v, r, s, i, x, t); }
    if level(w, r, i, x) && level(v, s, i, y) { d_level(w, v, r, s, i, x, y); }
    reveal(agr);
}
proof fn d_last(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, res_last(w, r, i, x), res_last(v, s, i, y), ensures same(x, y)
{ if is_path_kind(kindv(i)) { d_file_dir(w, v, r, s, i, x, y); } else { reveal(agr); } }
proof fn d_browser(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, pksim(p, q), res_browser(w, r, p, i, x), res_browser(v, s, q, i, y), ensures same(x, y)
{ d_br(r.options, p, q, i); let b = br_st(r.options, p, i); if b is Resv { d_last(w, v, r, s, b->Resv_0, x, y); } }
pub open spec fn rp_in(w: Rels, r: Resolver, p: Pkg, i: InfoV, out: StV) -> bool { exists|f: StV| #[trigger] seen(f) && in_imp(w, p, i, f) && if f is Resv { res_browser(w, r, p, f->Resv_0, out) } else { out == f } }
proof fn d_rp_in(w: Rels, v: Rels, r: Resolver, s: Resolver, p: Pkg, q: Pkg, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, pksim(p, q), rp_in(w, r, p, i, x), rp_in(v, s, q, i, y), ensures same(x, y)
{
    let a = choose|f: StV| #[trigger] seen(f) && in_imp(w, p, i, f) && if f is Resv { res_browser(w, r, p, f->Resv_0, x) } else { x == f };
    let b = choose|f: StV| #[trigger] seen(f) && in_imp(v, q, i, f) && if f is Resv { res_browser(v, s, q, f->Resv_0, y) } else { y == f };
    assert(same(a, b)) by { reveal(agr); }
    if a is Resv { d_browser(w, v, r, s, p, q, a->Resv_0, x, y); }
}
proof fn d_res_pkg(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, res_pkg(w, r, i, x), res_pkg(v, s, i, y), ensures same(x, y)
{
    let d = subject(i);
    let (c, k) = choose|z: Seq<char>, pk: LRes| #[trigger] pkg_rel(r, z, pk) && z =~= d && match pk { Err(e) => x == StV::Err(e@), Ok(p) => rp_in(w, r, p, i, x) };
    let (e, l) = choose|z: Seq<char>, pk: LRes| #[trigger] pkg_rel(s, z, pk) && z =~= d && match pk { Err(e) => y == StV::Err(e@), Ok(p) => rp_in(v, s, p, i, y) };
    assert(pkg_rel(r, c, k)); assert(pkg_rel(s, e, l)); assert(c == d && e == d);
    d_pkg(r, s, d, k, l);
    match (k, l) { (Ok(a), Ok(b)) => { d_rp_in(w, v, r, s, a, b, i, x, y); } _ => {} }
}
proof fn d_res_prefer(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, res_prefer(w, r, i, x), res_prefer(v, s, i, y), ensures same(x, y)
{
    let a = choose|b: StV| #[trigger] seen(b) && prefer_rule(w, r, i, b) && if b is Resv { res_pkg(w, r, b->Resv_0, x) } else { x == b };
    let b = choose|b: StV| #[trigger] seen(b) && prefer_rule(v, s, i, b) && if b is Resv { res_pkg(v, s, b->Resv_0, y) } else { y == b };
    d_prefer(w, v, r, s, i, a, b);
    if a is Resv { d_res_pkg(w, v, r, s, a->Resv_0, x, y); }
}
proof fn d_steps(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, res_steps(w, r, i, x), res_steps(v, s, i, y), ensures same(x, y)
{
    let a = choose|a: StV| #[trigger] seen(a) && alias_rule(w, r, i, a) && if a is Resv { res_prefer(w, r, a->Resv_0, x) } else { x == a };
    let b = choose|a: StV| #[trigger] seen(a) && alias_rule(v, s, i, a) && if a is Resv { res_prefer(v, s, a->Resv_0, y) } else { y == a };
    d_alias(w, v, r, s, i, a, b);
    if a is Resv { d_res_prefer(w, v, r, s, a->Resv_0, x, y); }
}
proof fn d_res(w: Rels, v: Rels, r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires agr(w, v), r.options == s.options, res_rule(w, r, i, x), res_rule(v, s, i, y), ensures same(x, y)
{
    let t = StV::Err(tag());
    if res_steps(w, r, i, t) && res_steps(v, s, i, y) { d_steps(w, v, r, s, i, t, y); }
    if res_steps(w, r, i, x) && res_steps(v, s, i, t) { d_steps(w, v, r, s, i, x, t); }
    if res_steps(w, r, i, x) && res_steps(v, s, i, y) { d_steps(w, v, r, s, i, x, y); }
}
// ---------- inversion: what is derived is derived by a rule ----------
#[verifier::opaque] spec fn step(s: Resolver) -> Rels { Rels { res: |i: InfoV, x: StV| res_rule(all(s), s, i, x), dir: |i: InfoV, x: StV| dir_rule(all(s), s, i, x), mods: |i: InfoV, x: StV| mods_rule(all(s), s, i, x), imp: |p: Pkg, i: InfoV, x: StV| imp_rule(all(s), s, p, i, x) } }
proof fn i_res(s: Resolver, i: InfoV, x: StV) ensures in_res(step(s), i, x) == res_rule(all(s), s, i, x) { reveal(in_res); reveal(step); }
proof fn i_dir(s: Resolver, i: InfoV, x: StV) ensures in_dir(step(s), i, x) == dir_rule(all(s), s, i, x) { reveal(in_dir); reveal(step); }
proof fn i_mods(s: Resolver, i: InfoV, x: StV) ensures in_mods(step(s), i, x) == mods_rule(all(s), s, i, x) { reveal(in_mods); reveal(step); }
proof fn i_imp(s: Resolver, p: Pkg, i: InfoV, x: StV) ensures in_imp(step(s), p, i, x) == imp_rule(all(s), s, p, i, x) { reveal(in_imp); reveal(step); }
proof fn lem_step(s: Resolver) ensures le(all(s), step(s))
{
    broadcast use {rel::bl_res, rel::bl_dir, rel::bl_mods, rel::bl_imp};
    assert(le(step(s), all(s))) by {
        assert forall|i: InfoV, x: StV| #[trigger] in_res(step(s), i, x) implies in_res(all(s), i, x) by { i_res(s, i, x); rel::ax_res(s, i, x); }
        assert forall|i: InfoV, x: StV| #[trigger] in_dir(step(s), i, x) implies in_dir(all(s), i, x) by { i_dir(s, i, x); rel::ax_dir(s, i, x); }
        assert forall|i: InfoV, x: StV| #[trigger] in_mods(step(s), i, x) implies in_mods(all(s), i, x) by { i_mods(s, i, x); rel::ax_mods(s, i, x); }
        assert forall|p: Pkg, i: InfoV, x: StV| #[trigger] in_imp(step(s), p, i, x) implies in_imp(all(s), p, i, x) by { i_imp(s, p, i, x); rel::ax_imp(s, p, i, x); }
    }
    let w = step(s);
    assert forall|i: InfoV, x: StV| res_rule(w, s, i, x) implies #[trigger] in_res(w, i, x) by { rel::m_res(w, all(s), s, i, x); i_res(s, i, x); }
    assert forall|i: InfoV, x: StV| dir_rule(w, s, i, x) implies #[trigger] in_dir(w, i, x) by { rel::m_dir(w, all(s), s, i, x); i_dir(s, i, x); }
    assert forall|i: InfoV, x: StV| mods_rule(w, s, i, x) implies #[trigger] in_mods(w, i, x) by { rel::m_mods(w, all(s), s, i, x); i_mods(s, i, x); }
    assert forall|p: Pkg, i: InfoV, x: StV| imp_rule(w, s, p, i, x) implies #[trigger] in_imp(w, p, i, x) by { rel::m_imp(w, all(s), s, p, i, x); i_imp(s, p, i, x); }
    rel::lem_least(w, s);
}
/// what a fact must be to agree with all facts of s
#[verifier::opaque] spec fn compat(s: Resolver) -> Rels {
    Rels { res: |i: InfoV, x: StV| forall|y: StV| #[trigger] in_res(all(s), i, y) ==> same(x, y), dir: |i: InfoV, x: StV| forall|y: StV| #[trigger] in_dir(all(s), i, y) ==> same(x, y), mods: |i: InfoV, x: StV| forall|y: StV| #[trigger] in_mods(all(s), i, y) ==> same(x, y), imp: |p: Pkg, i: InfoV, x: StV| forall|q: Pkg, y: StV| #[trigger] in_imp(all(s), q, i, y) && pksim(p, q) ==> same(x, y) }
}
proof fn c_res(s: Resolver, i: InfoV, x: StV) ensures in_res(compat(s), i, x) == (forall|y: StV| #[trigger] in_res(all(s), i, y) ==> same(x, y)) { reveal(in_res); reveal(compat); }
proof fn c_dir(s: Resolver, i: InfoV, x: StV) ensures in_dir(compat(s), i, x) == (forall|y: StV| #[trigger] in_dir(all(s), i, y) ==> same(x, y)) { reveal(in_dir); reveal(compat); }
proof fn c_mods(s: Resolver, i: InfoV, x: StV) ensures in_mods(compat(s), i, x) == (forall|y: StV| #[trigger] in_mods(all(s), i, y) ==> same(x, y)) { reveal(in_mods); reveal(compat); }
proof fn c_imp(s: Resolver, p: Pkg, i: InfoV, x: StV) ensures in_imp(compat(s), p, i, x) == (forall|q: Pkg, y: StV| #[trigger] in_imp(all(s), q, i, y) && pksim(p, q) ==> same(x, y)) { reveal(in_imp); reveal(compat); }
proof fn lem_compat_agr(s: Resolver) ensures agr(compat(s), all(s))
{
    reveal(agr);
    let w = compat(s);
    assert forall|i: InfoV, x: StV, y: StV| #[trigger] in_res(w, i, x) && #[trigger] in_res(all(s), i, y) implies same(x, y) by { c_res(s, i, x); }
    assert forall|i: InfoV, x: StV, y: StV| #[trigger] in_dir(w, i, x) && #[trigger] in_dir(all(s), i, y) implies same(x, y) by { c_dir(s, i, x); }
    assert forall|i: InfoV, x: StV, y: StV| #[trigger] in_mods(w, i, x) && #[trigger] in_mods(all(s), i, y) implies same(x, y) by { c_mods(s, i, x); }
    assert forall|p: Pkg, q: Pkg, i: InfoV, x: StV, y: StV| #[trigger] in_imp(w, p, i, x) && #[trigger] in_imp(all(s), q, i, y) && pksim(p, q) implies same(x, y) by { c_imp(s, p, i, x); }
}
proof fn lem_compat_closed(r: Resolver, s: Resolver) requires r.options == s.options, ensures closed(compat(s), r)
{
    let w = compat(s); let v = all(s);
    lem_compat_agr(s); lem_step(s);
    assert forall|i: InfoV, x: StV| res_rule(w, r, i, x) implies #[trigger] in_res(w, i, x) by {
        assert forall|y: StV| #[trigger] in_res(v, i, y) implies same(x, y) by { assert(in_res(step(s), i, y)); i_res(s, i, y); d_res(w, v, r, s, i, x, y); }
        c_res(s, i, x);
    }
    assert forall|i: InfoV, x: StV| dir_rule(w, r, i, x) implies #[trigger] in_dir(w, i, x) by {
        assert forall|y: StV| #[trigger] in_dir(v, i, y) implies same(x, y) by { assert(in_dir(step(s), i, y)); i_dir(s, i, y); d_dir(w, v, r, s, i, x, y); }
        c_dir(s, i, x);
    }
    assert forall|i: InfoV, x: StV| mods_rule(w, r, i, x) implies #[trigger] in_mods(w, i, x) by {
        assert forall|y: StV| #[trigger] in_mods(v, i, y) implies same(x, y) by { assert(in_mods(step(s), i, y)); i_mods(s, i, y); d_mods(w, v, r, s, i, x, y); }
        c_mods(s, i, x);
    }
    assert forall|p: Pkg, i: InfoV, x: StV| imp_rule(w, r, p, i, x) implies #[trigger] in_imp(w, p, i, x) by {
        assert forall|q: Pkg, y: StV| #[trigger] in_imp(v, q, i, y) && pksim(p, q) implies same(x, y) by { assert(in_imp(step(s), q, i, y)); i_imp(s, q, i, y); d_imp(w, v, r, s, p, q, i, x, y); }
        c_imp(s, p, i, x);
    }
}
/// C18: two lookups of one request under one configuration end alike, whatever was cached, by whom and when
pub proof fn one_answer(r: Resolver, s: Resolver, i: InfoV, x: StV, y: StV) requires r.options == s.options, RES(r, i, x), RES(s, i, y), ensures same(x, y)
{
    lem_compat_closed(r, s);
    rel::lem_least(compat(s), r);
    rel::bl_res(r, i, x); rel::bl_res(s, i, y);
    assert(in_res(all(r), i, x));
    c_res(s, i, x);
    assert(in_res(all(s), i, y));
}
} // mod det
