// ---------- the tree of a map ----------
/// a value that may be written in an exports or imports map
pub open spec fn mv_ok(v: Value) -> bool decreases v, 0int via mv_ok_dec {
    match v { Value::String(_) => true, Value::Null => true, Value::Array(a) => arr_ok(a, a@.len() as int), Value::Object(o) => obj_ok(o, o.e().len() as int), _ => false }
}
pub open spec fn arr_ok(a: Vec<Value>, n: int) -> bool decreases a, n via arr_ok_dec { n <= 0 || n > a@.len() || (arr_ok(a, n - 1) && !(a@[n - 1] is Array) && mv_ok(a@[n - 1])) }
pub open spec fn obj_ok(o: IndexMap<String, Value>, n: int) -> bool decreases o, n via obj_ok_dec { n <= 0 || n > o.e().len() || (obj_ok(o, n - 1) && mv_ok(o.e()[n - 1].1)) }
#[via_fn] proof fn mv_ok_dec(v: Value) {}
#[via_fn] proof fn arr_ok_dec(a: Vec<Value>, n: int) { if 0 < n <= a@.len() { assert(decreases_to!(a => a@[n - 1])); } }
#[via_fn] proof fn obj_ok_dec(o: IndexMap<String, Value>, n: int) { if 0 < n <= o.e().len() { ax_im_dec(o, n - 1); } }
/// what it stands for: null is a list without target, a null in a list is no entry of it
pub open spec fn mv_is(v: Value, m: MappingValue) -> bool decreases v, 0int via mv_is_dec {
    match v {
        Value::String(s) => match m { MappingValue::Direct(t) => t@ == s@, _ => false },
        Value::Null => match m { MappingValue::Array(l) => l@.len() == 0, _ => false },
        Value::Array(a) => match m { MappingValue::Array(l) => arr_is(a, a@.len() as int, l@), _ => false },
        Value::Object(o) => match m { MappingValue::Conditional(c) => c.e().len() == o.e().len() && obj_is(o, o.e().len() as int, c.e()), _ => false },
        _ => false,
    }
}
pub open spec fn cond_e(m: MappingValue) -> Seq<(Seq<char>, MappingValue)> { match m { MappingValue::Conditional(c) => c.e(), _ => seq![] } }
pub open spec fn am_mv(a: AvailableMapping) -> MappingValue { match a { AvailableMapping::Direct(s) => MappingValue::Direct(s), AvailableMapping::Conditional(c) => MappingValue::Conditional(c) } }
pub open spec fn arr_is(a: Vec<Value>, n: int, out: Seq<AvailableMapping>) -> bool decreases a, n via arr_is_dec {
    if n <= 0 || n > a@.len() { out.len() == 0 } else { match a@[n - 1] { Value::Null => arr_is(a, n - 1, out), x => out.len() > 0 && arr_is(a, n - 1, out.drop_last()) && mv_is(x, am_mv(out.last())) } }
}
pub open spec fn obj_is(o: IndexMap<String, Value>, n: int, out: Seq<(Seq<char>, MappingValue)>) -> bool decreases o, n via obj_is_dec {
    n <= 0 || n > o.e().len() || (n <= out.len() && obj_is(o, n - 1, out) && out[n - 1].0 == o.e()[n - 1].0 && mv_is(o.e()[n - 1].1, out[n - 1].1))
}
#[via_fn] proof fn mv_is_dec(v: Value, m: MappingValue) {}
#[via_fn] proof fn arr_is_dec(a: Vec<Value>, n: int, out: Seq<AvailableMapping>) { if 0 < n <= a@.len() { assert(decreases_to!(a => a@[n - 1])); } }
#[via_fn] proof fn obj_is_dec(o: IndexMap<String, Value>, n: int, out: Seq<(Seq<char>, MappingValue)>) { if 0 < n <= o.e().len() { ax_im_dec(o, n - 1); } }
/// adding one entry
pub proof fn lem_obj_push(o: IndexMap<String, Value>, n: int, a: Seq<(Seq<char>, MappingValue)>, b: Seq<(Seq<char>, MappingValue)>)
    requires obj_is(o, n, a), n <= a.len() <= b.len(), n <= o.e().len(), forall|i: int| 0 <= i < n ==> #[trigger] b[i] == a[i],
    ensures obj_is(o, n, b),
    decreases n
{ if n > 0 { assert(b[n - 1] == a[n - 1]); lem_obj_push(o, n - 1, a, b); } }
pub proof fn lem_obj_bad(o: IndexMap<String, Value>, i: int, n: int) requires 0 <= i < n <= o.e().len(), !mv_ok(o.e()[i].1), ensures !obj_ok(o, n) decreases n
{ if i < n - 1 { lem_obj_bad(o, i, n - 1); } }
pub proof fn lem_arr_bad(a: Vec<Value>, i: int, n: int) requires 0 <= i < n <= a@.len(), a@[i] is Array || !mv_ok(a@[i]), ensures !arr_ok(a, n) decreases n
{ if i < n - 1 { lem_arr_bad(a, i, n - 1); } }

pub open spec fn dotted(k: Seq<char>) -> bool { k.len() > 0 && (k[0] == '.' || k[0] == '/') }
/// the keys of the map that a value of "exports" stands for: a map of conditions, a list or a string is the value of "."
pub open spec fn is_sub(o: IndexMap<String, Value>) -> bool { o.e().len() > 0 && forall|i: int| 0 <= i < o.e().len() ==> dotted((#[trigger] o.e()[i]).0) }
pub open spec fn is_cond(o: IndexMap<String, Value>) -> bool { forall|i: int| 0 <= i < o.e().len() ==> !dotted((#[trigger] o.e()[i]).0) }
pub open spec fn exports_key_ok(k: Seq<char>) -> bool { blen(k) == 1 || is_prefix(seq!['.', '/'], k) }
pub open spec fn imports_key_ok(k: Seq<char>) -> bool { k.len() > 0 && k[0] == '#' && blen(k) != 1 && !is_prefix(seq!['#', '/'], k) }
pub open spec fn valid_exports(v: Value) -> bool {
    mv_ok(v) && match v { Value::Object(o) => is_cond(o) || is_sub(o) && forall|i: int| 0 <= i < o.e().len() ==> exports_key_ok((#[trigger] o.e()[i]).0), _ => true }
}
pub open spec fn valid_imports(v: Value) -> bool {
    mv_ok(v) && v is Object && forall|i: int| 0 <= i < v->Object_0.e().len() ==> imports_key_ok((#[trigger] v->Object_0.e()[i]).0)
}
pub open spec fn ekey(k: Seq<char>) -> (Seq<char>, KK) { if blen(k) == 1 { (Seq::<char>::empty(), KK::File) } else { key_of(k.skip(2)) } }
pub open spec fn ikey(k: Seq<char>) -> (Seq<char>, KK) { key_of(k.skip(1)) }
pub open spec fn mkey(exports: bool, k: Seq<char>) -> (Seq<char>, KK) { if exports { ekey(k) } else { ikey(k) } }
/// the value of a key in the first n entries
pub open spec fn keys_get(exports: bool, e: Seq<(Seq<char>, MappingValue)>, p: Seq<char>, k: KK, n: int) -> Option<MappingValue> decreases n {
    if n <= 0 { None } else if mkey(exports, e[n - 1].0) == (p, k) { Some(e[n - 1].1) } else { keys_get(exports, e, p, k, n - 1) }
}
#[verifier::opaque] pub open spec fn flat(t: PathTreeNode) -> bool { forall|k: Seq<char>| #[trigger] t.files.m().dom().contains(k) ==> !k.contains('/') }
/// the tree holds exactly the first n keys
#[verifier::opaque] pub open spec fn tree_keys(exports: bool, e: Seq<(Seq<char>, MappingValue)>, n: int, t: PathTreeNode) -> bool {
    forall|p: Seq<char>, k: KK| #[trigger] tree_get(t, p, k) == keys_get(exports, e, p, k, n)
}
/// ... or one value for the package itself
#[verifier::opaque] pub open spec fn tree_one(v: MappingValue, t: PathTreeNode) -> bool {
    forall|p: Seq<char>, k: KK| #[trigger] tree_get(t, p, k) == (if p.len() == 0 && k is File { Some(v) } else { None })
}
pub open spec fn tree_exports(v: Value, t: PathTreeNode) -> bool {
    valid_exports(v) && flat(t) && exists|m: MappingValue| #[trigger] mv_is(v, m) && match v { Value::Object(o) => if is_cond(o) { tree_one(m, t) } else { tree_keys(true, cond_e(m), o.e().len() as int, t) }, _ => tree_one(m, t) }
}
pub open spec fn tree_imports(v: Value, t: PathTreeNode) -> bool {
    valid_imports(v) && flat(t) && exists|m: MappingValue| #[trigger] mv_is(v, m) && v is Object && tree_keys(false, cond_e(m), v->Object_0.e().len() as int, t)
}
pub proof fn lem_tree_empty(t: PathTreeNode, exports: bool, e: Seq<(Seq<char>, MappingValue)>)
    requires no_keys(t), ensures flat(t), tree_keys(exports, e, 0, t)
{
    reveal(tree_keys); reveal(flat);
    assert forall|p: Seq<char>, k: KK| #[trigger] tree_get(t, p, k) == keys_get(exports, e, p, k, 0) by { lemma_first_of(p, '/'); assert(leaf_get(t, p, k) is None); }
}
pub proof fn lem_tree_step(a: PathTreeNode, b: PathTreeNode, exports: bool, e: Seq<(Seq<char>, MappingValue)>, n: int)
    requires tree_keys(exports, e, n, a), 0 <= n < e.len(), set_key(b, a, mkey(exports, e[n].0), e[n].1), ensures tree_keys(exports, e, n + 1, b)
{
    reveal(tree_keys); reveal(set_key);
    let key = mkey(exports, e[n].0);
    assert forall|p: Seq<char>, k: KK| #[trigger] tree_get(b, p, k) == keys_get(exports, e, p, k, n + 1) by {
        assert(tree_get(b, p, k) == (if p =~= key.0 && k == key.1 { Some(e[n].1) } else { tree_get(a, p, k) }));
        if p =~= key.0 && k == key.1 { assert(key == (p, k)); }
    }
}
/// storing the value for the package itself
pub proof fn lem_tree_dot(b: PathTreeNode, a: PathTreeNode, v: MappingValue)
    requires b.children == a.children, b.folder == a.folder, b.wildcards == a.wildcards, b.files.m() == a.files.m().insert(Seq::<char>::empty(), v),
    ensures set_key(b, a, (Seq::<char>::empty(), KK::File), v), flat(a) ==> flat(b),
{ reveal(flat); lem_leaf_set(b, a, (Seq::<char>::empty(), KK::File), v); }
pub open spec fn dot_set(b: PathTreeNode, a: PathTreeNode, v: MappingValue) -> bool { b.children == a.children && b.folder == a.folder && b.wildcards == a.wildcards && b.files.m() == a.files.m().insert(Seq::<char>::empty(), v) }
pub proof fn lem_tree_dots(b: PathTreeNode, a: PathTreeNode, v: MappingValue)
    ensures dot_set(b, a, v) ==> set_key(b, a, (Seq::<char>::empty(), KK::File), v) && (flat(a) ==> flat(b))
{ if dot_set(b, a, v) { lem_tree_dot(b, a, v); } }
pub proof fn lem_tree_only(b: PathTreeNode, v: MappingValue)
    ensures bare_files(b) && b.files.m() == Map::<Seq<char>, MappingValue>::empty().insert(Seq::<char>::empty(), v) ==> tree_one(v, b) && flat(b)
{
    if bare_files(b) && b.files.m() == Map::<Seq<char>, MappingValue>::empty().insert(Seq::<char>::empty(), v) {
        reveal(flat); reveal(tree_one);
        assert forall|p: Seq<char>, k: KK| #[trigger] tree_get(b, p, k) == (if p.len() == 0 && k is File { Some(v) } else { None }) by {
            lemma_first_of(p, '/');
            assert(p.len() == 0 <==> p =~= Seq::<char>::empty());
            assert(leaf_get(b, p, k) == (if p.len() == 0 && k is File { Some(v) } else { None }));
        }
    }
}
pub proof fn lem_obj_keys(o: IndexMap<String, Value>, n: int, out: Seq<(Seq<char>, MappingValue)>)
    requires obj_is(o, n, out), n <= o.e().len(), n <= out.len(),
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] o.e()[i]).0 == out[i].0, forall|i: int| 0 <= i < n ==> o.e()[i].0 == (#[trigger] out[i]).0,
    decreases n
{ if n > 0 { lem_obj_keys(o, n - 1, out); } }
/// leaving out one or two one-byte characters at the front
pub proof fn lem_front(s: Seq<char>, n: int)
    requires 1 <= n <= 2, n <= s.len(), (s[0] as u32) < 0x80, n == 2 ==> (s[1] as u32) < 0x80,
    ensures is_bnd(s, n), is_bnd(s, blen(s) as int), blen(s) >= n, bslice(s, n, blen(s) as int) == s.skip(n), blen(s) == n ==> s.len() == n,
{
    reveal_with_fuel(blen, 4);
    assert(s.take(0).len() == 0);
    assert(s.take(1).drop_last() =~= s.take(0));
    assert(blen(s.take(1)) == 1);
    if n == 2 { assert(s.take(2).drop_last() =~= s.take(1)); assert(blen(s.take(2)) == 2); }
    lemma_blen_whole(s);
    lemma_blen_take(s, n, s.len() as int);
    lemma_cidx(s, n);
    assert(s.subrange(n, s.len() as int) =~= s.skip(n));
}
pub proof fn lem_one(s: Seq<char>) ensures blen(s) == 1 ==> s.len() == 1 { lemma_blen_whole(s); if blen(s) == 1 && s.len() == 0 { reveal(blen); } }
pub proof fn lem_walk_flat(rf: PathTreeNode, nf: PathTreeNode, r: PathTreeNode, n: PathTreeNode, path: Seq<char>, l: int, v: MappingValue)
    requires if l == 0 { rf == nf && r == n } else { rf.files == r.files }, 0 <= l <= path.len(), l == path.len() ==> path.len() == 0 || path.last() == '/', !path.skip(l).contains('/'),
    ensures leaf_set(nf, n, last_key(path, l), v) && flat(r) ==> flat(rf),
{ reveal(flat); lem_last_key(path, l); }
/// what the search for the best key means: an exact key, otherwise the longest prefix that is a pattern or a
/// directory, a pattern before a directory
pub open spec fn pre_key(t: PathTreeNode, req: Seq<char>, n: int, k: KK) -> Option<MappingValue> { tree_get(t, req.take(n), k) }
proof fn lem_upto_meaning(t: PathTreeNode, req: Seq<char>, n: int)
    requires 0 <= n <= req.len() + 1,
    ensures match best_upto(t, req, n) {
        None => forall|m: int| 0 <= m < n ==> pre_key(t, req, m, KK::Wild) is None && #[trigger] pre_key(t, req, m, KK::Folder) is None,
        Some((v, x)) => ({ let l = if x >= 0 { x } else { -x - 1 }; 0 <= l < n && pre_key(t, req, l, if x >= 0 { KK::Wild } else { KK::Folder }) == Some(v) && (x < 0 ==> pre_key(t, req, l, KK::Wild) is None)
            && forall|m: int| l < m < n ==> pre_key(t, req, m, KK::Wild) is None && #[trigger] pre_key(t, req, m, KK::Folder) is None }),
    }
    decreases n
{ if n > 0 { lem_upto_meaning(t, req, n - 1); } }
pub proof fn lem_best_meaning(t: PathTreeNode, req: Seq<char>)
    requires flat(t), req.len() > 0,
    ensures match tree_get(t, req, KK::File) {
        Some(v) => best_match(t, req) == Some((v, req.len() + 1int)),
        None => match best_match(t, req) {
            None => forall|m: int| 0 <= m <= req.len() ==> pre_key(t, req, m, KK::Wild) is None && #[trigger] pre_key(t, req, m, KK::Folder) is None,
            Some((v, x)) => ({ let l = if x >= 0 { x } else { -x - 1 }; 0 <= l <= req.len() && pre_key(t, req, l, if x >= 0 { KK::Wild } else { KK::Folder }) == Some(v) && (x < 0 ==> pre_key(t, req, l, KK::Wild) is None)
                && forall|m: int| l < m <= req.len() ==> pre_key(t, req, m, KK::Wild) is None && #[trigger] pre_key(t, req, m, KK::Folder) is None }),
        },
    }
{
    reveal(flat);
    lem_upto_meaning(t, req, req.len() + 1int);
    lemma_first_of(req, '/');
    if bare_files(t) {
        if first_of(req, '/') < req.len() { assert(req.contains(req[first_of(req, '/')])); assert(im_get(t.files, req) is None); }
        assert(exact(t, req) == tree_get(t, req, KK::File));
    }
}
