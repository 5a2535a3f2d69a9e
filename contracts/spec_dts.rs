// ---------- one answer only: a tsconfig, the whole resolve(), side effects ----------
/// equal but for the order of keys
pub open spec fn veq(a: Value, b: Value) -> bool decreases a, 0int via veq_dec {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.m().dom() == y.m().dom() && veq_at(x, x.e().len() as int, y.m()),
        _ => a == b,
    }
}
pub open spec fn veq_at(x: IndexMap<String, Value>, n: int, y: Map<Seq<char>, Value>) -> bool decreases x, n via veq_at_dec {
    n <= 0 || n > x.e().len() || (veq_at(x, n - 1, y) && veq(x.e()[n - 1].1, y[x.e()[n - 1].0]))
}
#[via_fn] proof fn veq_dec(a: Value, b: Value) {}
#[via_fn] proof fn veq_at_dec(x: IndexMap<String, Value>, n: int, y: Map<Seq<char>, Value>) { if 0 < n <= x.e().len() { ax_im_dec(x, n - 1); } }
pub open spec fn oveq(a: Option<Value>, b: Option<Value>) -> bool { match (a, b) { (Some(x), Some(y)) => veq(x, y), (None, None) => true, _ => false } }
/// the same outcome of resolve(): the same file, as path, with the same query and fragment, or ignored, or a failure
pub open spec fn out_same(x: Result<ResolveResult, String>, y: Result<ResolveResult, String>) -> bool {
    match (x, y) {
        (Ok(ResolveResult::Info(a)), Ok(ResolveResult::Info(b))) => p_comps(a.path@) == p_comps(b.path@) && iv(b) == repath(iv(a), b.path@),
        (Ok(ResolveResult::Ignored), Ok(ResolveResult::Ignored)) => true,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
pub open spec fn side_same(x: Result<Option<(PathBuf, Option<SideEffects>)>, String>, y: Result<Option<(PathBuf, Option<SideEffects>)>, String>) -> bool {
    match (x, y) { (Ok(None), Ok(None)) => true, (Ok(Some(a)), Ok(Some(b))) => a.0@ == b.0@ && sesim(a.1, b.1), (Err(_), Err(_)) => true, _ => false }
}
pub open spec fn ents_same(a: Seq<MappingEntry>, b: Seq<MappingEntry>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).pattern@ == b[i].pattern@ && strs_p(a[i]) == strs_p(b[i])
}
pub open spec fn strs_p(e: MappingEntry) -> Seq<Seq<char>> { Seq::new(e.paths@.len(), |i: int| e.paths@[i]@) }
pub mod dts {
use super::*;
proof fn v_get(x: IndexMap<String, Value>, n: int, y: Map<Seq<char>, Value>, i: int) requires veq_at(x, n, y), 0 <= i < n <= x.e().len(), ensures veq(x.e()[i].1, y[x.e()[i].0]) decreases n
{ if i < n - 1 { v_get(x, n - 1, y, i); } }
/// key by key
proof fn v_key(x: IndexMap<String, Value>, y: Map<Seq<char>, Value>, k: Seq<char>) requires veq_at(x, x.e().len() as int, y), x.m().dom().contains(k), ensures veq(x.m()[k], y[k])
{
    ax_im_dom(x, k);
    let i = choose|i: int| 0 <= i < x.e().len() && (#[trigger] x.e()[i]).0 == k && x.e()[i].1 == x.m()[k];
    v_get(x, x.e().len() as int, y, i);
}
proof fn v_put(x: IndexMap<String, Value>, n: int, y: Map<Seq<char>, Value>) requires 0 <= n <= x.e().len(), forall|k: Seq<char>| #[trigger] x.m().dom().contains(k) ==> veq(x.m()[k], y[k]), ensures veq_at(x, n, y) decreases n
{ if n > 0 { v_put(x, n - 1, y); ax_im_entries(x, n - 1); assert(x.m().dom().contains(x.e()[n - 1].0)); } }
proof fn v_refl(a: Value) ensures veq(a, a) decreases a
{
    match a { Value::Object(x) => {
        assert forall|k: Seq<char>| #[trigger] x.m().dom().contains(k) implies veq(x.m()[k], x.m()[k]) by { ax_im_dec2(x, k); v_refl(x.m()[k]); }
        v_put(x, x.e().len() as int, x.m());
    } _ => {} }
}
proof fn v_vget(a: Value, b: Value, k: Seq<char>) requires veq(a, b), ensures oveq(vget(a, k), vget(b, k)), get_str(a, k) == get_str(b, k)
{ match (a, b) { (Value::Object(x), Value::Object(y)) => if x.m().dom().contains(k) { v_key(x, y.m(), k); } _ => {} } }
proof fn m_get(am: Map<Seq<char>, Value>, b: IndexMap<String, Value>, n: int, om: Map<Seq<char>, Value>, i: int) requires mrg_at(am, b, n, om), 0 <= i < n <= b.e().len(), ensures om.dom().contains(b.e()[i].0), mrg(or_null(am, b.e()[i].0), b.e()[i].1, om[b.e()[i].0]) decreases n
{ if i < n - 1 { m_get(am, b, n - 1, om, i); } }
proof fn m_key(am: Map<Seq<char>, Value>, b: IndexMap<String, Value>, om: Map<Seq<char>, Value>, k: Seq<char>) requires mrg_at(am, b, b.e().len() as int, om), b.m().dom().contains(k), ensures om.dom().contains(k), mrg(or_null(am, k), b.m()[k], om[k])
{
    ax_im_dom(b, k);
    let i = choose|i: int| 0 <= i < b.e().len() && (#[trigger] b.e()[i]).0 == k && b.e()[i].1 == b.m()[k];
    m_get(am, b, b.e().len() as int, om, i);
}
proof fn m_rest(am: Map<Seq<char>, Value>, b: IndexMap<String, Value>, om: Map<Seq<char>, Value>, k: Seq<char>) requires mrg_keep(am, b, b.e().len() as int, om), !b.m().dom().contains(k), ensures om.dom().contains(k) == am.dom().contains(k), am.dom().contains(k) ==> om[k] == am[k]
{
    if among(b, b.e().len() as int, k) { let i = choose|i: int| 0 <= i < b.e().len() && (#[trigger] b.e()[i]).0 == k; ax_im_entries(b, i); }
}
/// merging leaves no choice
proof fn d_mrg(a: Value, b: Value, x: Value, c: Value, d: Value, y: Value) requires mrg(a, b, x), mrg(c, d, y), veq(a, c), veq(b, d), ensures veq(x, y) decreases b
{
    match (a, b) { (Value::Object(am), Value::Object(bm)) => {
        let cm = c->Object_0; let dm = d->Object_0; let xm = x->Object_0; let ym = y->Object_0;
        assert(c == Value::Object(cm) && d == Value::Object(dm) && x == Value::Object(xm) && y == Value::Object(ym));
        assert forall|k: Seq<char>| xm.m().dom().contains(k) == ym.m().dom().contains(k) && (#[trigger] xm.m().dom().contains(k) ==> veq(xm.m()[k], ym.m()[k])) by {
            if bm.m().dom().contains(k) {
                m_key(am.m(), bm, xm.m(), k); m_key(cm.m(), dm, ym.m(), k);
                v_key(bm, dm.m(), k);
                if am.m().dom().contains(k) { v_key(am, cm.m(), k); }
                assert(veq(or_null(am.m(), k), or_null(cm.m(), k)));
                ax_im_dec2(bm, k);
                d_mrg(or_null(am.m(), k), bm.m()[k], xm.m()[k], or_null(cm.m(), k), dm.m()[k], ym.m()[k]);
            } else {
                m_rest(am.m(), bm, xm.m(), k); m_rest(cm.m(), dm, ym.m(), k);
                if am.m().dom().contains(k) { v_key(am, cm.m(), k); }
            }
        }
        assert(xm.m().dom() =~= ym.m().dom());
        v_put(xm, xm.e().len() as int, ym.m());
    } _ => {} }
}
// ---------- a tsconfig with what it extends ----------
#[verifier::opaque] spec fn ts_step(s: Resolver) -> TsRel { |loc: Seq<char>, out: Option<Value>| tsv_rule(ts_all(s), s, loc, out) }
proof fn i_ts(s: Resolver, loc: Seq<char>, out: Option<Value>) ensures in_ts(ts_step(s), loc, out) == tsv_rule(ts_all(s), s, loc, out) { reveal(in_ts); reveal(ts_step); }
proof fn m_ts(w: TsRel, v: TsRel, r: Resolver, loc: Seq<char>, out: Option<Value>) requires tsv_rule(w, r, loc, out), forall|l: Seq<char>, o: Option<Value>| #[trigger] in_ts(w, l, o) ==> in_ts(v, l, o), ensures tsv_rule(v, r, loc, out)
{
    match ts_text(loc) { None => {}, Some(j) => match get_str(j, key_extends()) { None => {}, Some(t) => {
        let st = choose|st: StV| #[trigger] seen(st) && RES(r, request_info(p_parent(loc).unwrap(), t), st) && ts_ext(w, j, loc, t, st, out);
        assert(seen(st) && RES(r, request_info(p_parent(loc).unwrap(), t), st) && ts_ext(v, j, loc, t, st, out));
    } } }
}
proof fn lem_ts_step(s: Resolver, loc: Seq<char>, out: Option<Value>) requires TSV(s, loc, out), ensures tsv_rule(ts_all(s), s, loc, out)
{
    let w = ts_step(s);
    assert forall|l: Seq<char>, o: Option<Value>| #[trigger] in_ts(w, l, o) implies in_ts(ts_all(s), l, o) by { i_ts(s, l, o); tsr::ax_tsv(s, l, o); tsr::bl_tsv(s, l, o); }
    assert forall|l: Seq<char>, o: Option<Value>| tsv_rule(w, s, l, o) implies #[trigger] in_ts(w, l, o) by { m_ts(w, ts_all(s), s, l, o); i_ts(s, l, o); }
    assert(ts_closed(w, s));
    reveal(TSV);
    assert(in_ts(w, loc, out));
    i_ts(s, loc, out);
}
#[verifier::opaque] spec fn ts_compat(s: Resolver) -> TsRel { |loc: Seq<char>, out: Option<Value>| forall|o: Option<Value>| #[trigger] TSV(s, loc, o) ==> oveq(out, o) }
proof fn c_ts(s: Resolver, loc: Seq<char>, out: Option<Value>) ensures in_ts(ts_compat(s), loc, out) == (forall|o: Option<Value>| #[trigger] TSV(s, loc, o) ==> oveq(out, o)) { reveal(in_ts); reveal(ts_compat); }
proof fn d_merged(s: Resolver, j: Value, p: Seq<char>, x: Option<Value>, y: Option<Value>) requires ts_merged(ts_compat(s), j, p, x), ts_merged(ts_all(s), j, p, y), ensures oveq(x, y)
{
    let a = choose|b: Option<Value>| #[trigger] in_ts(ts_compat(s), p, b) && ts_over(j, b, x);
    let c = choose|b: Option<Value>| #[trigger] in_ts(ts_all(s), p, b) && ts_over(j, b, y);
    tsr::bl_tsv(s, p, c); c_ts(s, p, a);
    v_refl(j);
    match (a, c) { (Some(b), Some(d)) => { d_mrg(j, b, x.unwrap(), j, d, y.unwrap()); } _ => {} }
}
proof fn d_tsv(r: Resolver, s: Resolver, loc: Seq<char>, x: Option<Value>, y: Option<Value>) requires r.options == s.options, tsv_rule(ts_compat(s), r, loc, x), tsv_rule(ts_all(s), s, loc, y), ensures oveq(x, y)
{
    match ts_text(loc) { None => {}, Some(j) => { v_refl(j); match get_str(j, key_extends()) { None => {}, Some(t) => {
        let i = request_info(p_parent(loc).unwrap(), t);
        let a = choose|st: StV| #[trigger] seen(st) && RES(r, i, st) && ts_ext(ts_compat(s), j, loc, t, st, x);
        let b = choose|st: StV| #[trigger] seen(st) && RES(s, i, st) && ts_ext(ts_all(s), j, loc, t, st, y);
        det::one_answer(r, s, i, a, b);
        match a { StV::Succ(k) => { d_merged(s, j, at_v(k), x, y); } _ => {} }
    } } } }
}
/// one value only
pub proof fn one_tsconfig(r: Resolver, s: Resolver, loc: Seq<char>, x: Option<Value>, y: Option<Value>) requires r.options == s.options, TSV(r, loc, x), TSV(s, loc, y), ensures oveq(x, y)
{
    let w = ts_compat(s);
    assert forall|l: Seq<char>, o: Option<Value>| tsv_rule(w, r, l, o) implies #[trigger] in_ts(w, l, o) by {
        assert forall|q: Option<Value>| #[trigger] TSV(s, l, q) implies oveq(o, q) by { lem_ts_step(s, l, q); d_tsv(r, s, l, o, q); }
        c_ts(s, l, o);
    }
    assert(ts_closed(w, r));
    reveal(TSV);
    assert(in_ts(w, loc, x));
    c_ts(s, loc, x);
}
// ---------- its table ----------
proof fn d_paths_ok(a: Value, b: Value) requires veq(a, b), paths_ok(a), ensures paths_ok(b)
{
    match (a, b) { (Value::Object(x), Value::Object(y)) => {
        assert forall|i: int| 0 <= i < y.e().len() implies str_list((#[trigger] y.e()[i]).1) by {
            let k = y.e()[i].0;
            ax_im_entries(y, i);
            assert(x.m().dom().contains(k));
            v_key(x, y.m(), k); ax_im_dom(x, k);
            let q = choose|q: int| 0 <= q < x.e().len() && (#[trigger] x.e()[q]).0 == k && x.e()[q].1 == x.m()[k];
            assert(str_list(x.e()[q].1));
        }
    } _ => {} }
}
proof fn v_sym(a: Value, b: Value) requires veq(a, b), ensures veq(b, a) decreases a
{
    match (a, b) { (Value::Object(x), Value::Object(y)) => {
        assert forall|k: Seq<char>| #[trigger] y.m().dom().contains(k) implies veq(y.m()[k], x.m()[k]) by { assert(x.m().dom().contains(k)); v_key(x, y.m(), k); ax_im_dec2(x, k); v_sym(x.m()[k], y.m()[k]); }
        v_put(y, y.e().len() as int, x.m());
    } _ => {} }
}
proof fn d_ts_paths(a: Value, b: Value) requires veq(a, b), ensures oveq(ts_paths(a), ts_paths(b)), ts_base(a) == ts_base(b), ts_ok(a) == ts_ok(b)
{
    v_vget(a, b, key_options());
    match (vget(a, key_options()), vget(b, key_options())) { (Some(o), Some(p)) => {
        v_vget(o, p, key_paths()); v_vget(o, p, key_base());
        match (ts_paths(a), ts_paths(b)) { (Some(x), Some(y)) => { v_sym(x, y); if paths_ok(x) { d_paths_ok(x, y); } if paths_ok(y) { d_paths_ok(y, x); } } _ => {} }
    } _ => {} }
}
pub open spec fn pmsim(a: Map<Seq<char>, Vec<String>>, b: Map<Seq<char>, Vec<String>>) -> bool { a.dom() == b.dom() && forall|k: Seq<char>| #[trigger] a.dom().contains(k) ==> strs_of(a[k]@) == strs_of(b[k]@) }
proof fn d_strs(v: Value, l: Seq<String>, m: Seq<String>) requires list_is(v, l), list_is(v, m), ensures strs_of(l) == strs_of(m)
{
    let a = v->Array_0@;
    assert forall|i: int| 0 <= i < l.len() implies l[i]@ == m[i]@ by { assert(vstr(a[i]) == Some(l[i]@)); }
    assert(strs_of(l) =~= strs_of(m));
}
proof fn p_at(o: IndexMap<String, Value>, m: Map<Seq<char>, Vec<String>>, k: Seq<char>) requires paths_at(o, o.e().len() as int, m), ensures m.dom().contains(k) == o.m().dom().contains(k), m.dom().contains(k) ==> list_is(o.m()[k], m[k]@)
{
    if m.dom().contains(k) { assert(among(o, o.e().len() as int, k)); let i = choose|i: int| 0 <= i < o.e().len() && (#[trigger] o.e()[i]).0 == k; ax_im_entries(o, i); }
    if o.m().dom().contains(k) { ax_im_dom(o, k); let i = choose|i: int| 0 <= i < o.e().len() && (#[trigger] o.e()[i]).0 == k && o.e()[i].1 == o.m()[k]; assert(m.dom().contains(o.e()[i].0)); }
}
proof fn d_map(a: Value, b: Value, x: HashMap<String, Vec<String>>, y: HashMap<String, Vec<String>>) requires veq(a, b), paths_is(a, x), paths_is(b, y), ensures pmsim(x@, y@)
{
    let o = a->Object_0; let p = b->Object_0;
    assert(a == Value::Object(o) && b == Value::Object(p));
    assert forall|k: Seq<char>| x@.dom().contains(k) == y@.dom().contains(k) && (#[trigger] x@.dom().contains(k) ==> strs_of(x@[k]@) == strs_of(y@[k]@)) by {
        p_at(o, x@, k); p_at(p, y@, k);
        if x@.dom().contains(k) { v_key(o, p.m(), k); d_strs(o.m()[k], x@[k]@, y@[k]@); }
    }
    assert(x@.dom() =~= y@.dom());
}
/// the order of the patterns leaves no choice
proof fn d_ent_at(m: Map<Seq<char>, Vec<String>>, q: Map<Seq<char>, Vec<String>>, d: Seq<char>, a: Seq<MappingEntry>, b: Seq<MappingEntry>, n: int)
    requires pmsim(m, q), ents_all(m, d, a), ents_all(q, d, b), ents_sorted(a), ents_sorted(b), 0 <= n, n <= a.len(), n <= b.len(),
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).pattern@ == b[i].pattern@,
    decreases n
{
    if n > 0 {
        d_ent_at(m, q, d, a, b, n - 1);
        let x = a[n - 1].pattern@; let y = b[n - 1].pattern@;
        let j = d_pos(m, q, d, a, b, n - 1);
        let k = d_pos2(m, q, d, a, b, n - 1);
        if j < n - 1 { assert(a[j].pattern@ == b[j].pattern@); assert(a[j].pattern@ != a[n - 1].pattern@); }
        if k < n - 1 { assert(a[k].pattern@ == b[k].pattern@); assert(b[k].pattern@ != b[n - 1].pattern@); }
        if j > n - 1 && k > n - 1 {
            assert(pat_le(b[n - 1].pattern@, b[j].pattern@)); assert(pat_le(a[n - 1].pattern@, a[k].pattern@));
            assert(pat_le(y, x) && pat_le(x, y));
            ax_str_lt(x, y, x);
            assert(x == y);
        }
    }
}
proof fn d_pos(m: Map<Seq<char>, Vec<String>>, q: Map<Seq<char>, Vec<String>>, d: Seq<char>, a: Seq<MappingEntry>, b: Seq<MappingEntry>, i: int) -> (j: int)
    requires pmsim(m, q), ents_all(m, d, a), ents_all(q, d, b), 0 <= i < a.len(), ensures 0 <= j < b.len(), b[j].pattern@ == a[i].pattern@
{ let k = a[i].pattern@; assert(m.dom().contains(k)); assert(q.dom().contains(k)); choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).pattern@ == k }
proof fn d_pos2(m: Map<Seq<char>, Vec<String>>, q: Map<Seq<char>, Vec<String>>, d: Seq<char>, a: Seq<MappingEntry>, b: Seq<MappingEntry>, i: int) -> (j: int)
    requires pmsim(m, q), ents_all(m, d, a), ents_all(q, d, b), 0 <= i < b.len(), ensures 0 <= j < a.len(), a[j].pattern@ == b[i].pattern@
{ let k = b[i].pattern@; assert(q.dom().contains(k)); assert(m.dom().contains(k)); choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).pattern@ == k }
proof fn d_len(m: Map<Seq<char>, Vec<String>>, q: Map<Seq<char>, Vec<String>>, d: Seq<char>, a: Seq<MappingEntry>, b: Seq<MappingEntry>)
    requires pmsim(m, q), ents_all(m, d, a), ents_all(q, d, b), ents_sorted(a), ents_sorted(b), ensures a.len() == b.len()
{
    if a.len() < b.len() {
        let n = a.len() as int;
        d_ent_at(m, q, d, a, b, n);
        let k = d_pos2(m, q, d, a, b, n);
        assert(a[k].pattern@ == b[k].pattern@); assert(b[k].pattern@ != b[n].pattern@);
    } else if b.len() < a.len() {
        let n = b.len() as int;
        d_ent_at(m, q, d, a, b, n);
        let k = d_pos(m, q, d, a, b, n);
        assert(a[k].pattern@ == b[k].pattern@); assert(a[k].pattern@ != a[n].pattern@);
    }
}
proof fn d_ents(m: Map<Seq<char>, Vec<String>>, q: Map<Seq<char>, Vec<String>>, d: Seq<char>, a: Seq<MappingEntry>, b: Seq<MappingEntry>)
    requires pmsim(m, q), ents_all(m, d, a), ents_all(q, d, b), ents_sorted(a), ents_sorted(b), ensures ents_same(a, b)
{
    d_len(m, q, d, a, b);
    d_ent_at(m, q, d, a, b, a.len() as int);
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).pattern@ == b[i].pattern@ && strs_p(a[i]) == strs_p(b[i]) by {
        let k = a[i].pattern@;
        assert(b[i].pattern@ == k);
        assert(m.dom().contains(k) && ent_is(a[i], d, m[k]@)); assert(q.dom().contains(k) && ent_is(b[i], d, q[k]@));
        let l = strs_of(m[k]@); let o = strs_of(q[k]@);
        assert(l == o);
        assert(strs_p(a[i]).len() == l.len()); assert(strs_p(b[i]).len() == o.len());
        assert forall|c: int| 0 <= c < l.len() implies strs_p(a[i])[c] == strs_p(b[i])[c] by {
            assert(a[i].paths@[c]@ == p_join(d, m[k]@[c]@)); assert(b[i].paths@[c]@ == p_join(d, q[k]@[c]@));
            assert(l[c] == m[k]@[c]@); assert(o[c] == q[k]@[c]@);
        }
        assert(strs_p(a[i]) =~= strs_p(b[i]));
    }
}
proof fn d_table(u: Value, v: Value, loc: Seq<char>, b: Option<String>, p: Option<HashMap<String, Vec<String>>>, es: Seq<MappingEntry>, c: Option<String>, q: Option<HashMap<String, Vec<String>>>, fs: Seq<MappingEntry>)
    requires veq(u, v), ts_is(u, b, p), ts_table(optv(b), opt_map(p), loc, es), ts_is(v, c, q), ts_table(optv(c), opt_map(q), loc, fs), ensures ents_same(es, fs)
{
    d_ts_paths(u, v);
    match (p, q) { (Some(x), Some(y)) => {
        d_map(ts_paths(u).unwrap(), ts_paths(v).unwrap(), x, y);
        match optv(b) { Some(d) => { d_ents(x@, y@, p_join(p_parent(loc).unwrap(), d), es, fs); } None => {} }
    } _ => {} }
}
// ---------- lookup ----------
proof fn d_cand(i: InfoV, e: MappingEntry, f: MappingEntry, b: int) requires e.pattern@ == f.pattern@, strs_p(e) == strs_p(f), 0 <= b < e.paths@.len(), ensures e.paths@.len() == f.paths@.len(), ts_cand(i, e, b) == ts_cand(i, f, b)
{ assert(strs_p(e).len() == e.paths@.len()); assert(strs_p(f).len() == f.paths@.len()); assert(strs_p(e)[b] == e.paths@[b]@); assert(strs_p(f)[b] == f.paths@[b]@); }
proof fn d_no(r: Resolver, s: Resolver, i: InfoV, x: StV) requires r.options == s.options, RES(r, i, x), succ(x), ensures !res_fails(all(s), s, i)
{
    if res_fails(all(s), s, i) {
        let y = choose|y: StV| #[trigger] seen(y) && in_res(all(s), i, y) && !succ(y);
        rel::bl_res(s, i, y);
        det::one_answer(r, s, i, x, y);
    }
}
/// a failing entry is one for both
proof fn d_fail(r: Resolver, s: Resolver, i: InfoV, es: Seq<MappingEntry>, fs: Seq<MappingEntry>, out: StV, a: int, b: int)
    requires r.options == s.options, ents_same(es, fs), 0 <= a < es.len(), 0 <= b < es[a].paths@.len(), star(es[a].pattern@, i.target) is Some, RES(r, ts_cand(i, es[a], b), out), succ(out),
    ensures !ts_fail(s, i, fs[a], fs[a].paths@.len() as int), forall|n: int| b < n <= es[a].paths@.len() ==> !ts_fail(s, i, fs[a], n), b < fs[a].paths@.len() == es[a].paths@.len(), ts_cand(i, es[a], b) == ts_cand(i, fs[a], b)
{
    assert(es[a].pattern@ == fs[a].pattern@);
    d_cand(i, es[a], fs[a], b);
    d_no(r, s, ts_cand(i, es[a], b), out);
}
proof fn d_hit(r: Resolver, s: Resolver, i: InfoV, es: Seq<MappingEntry>, fs: Seq<MappingEntry>, x: StV, y: StV, a: int, b: int, c: int, d: int)
    requires r.options == s.options, ents_same(es, fs), 0 <= a < es.len(), ts_fails(r, i, es, a), RES(r, ts_cand(i, es[a], b), x), ts_hit(r, i, es[a], x, b),
        0 <= c < fs.len(), ts_fails(s, i, fs, c), RES(s, ts_cand(i, fs[c], d), y), ts_hit(s, i, fs[c], y, d),
    ensures same(x, y)
{
    assert(ents_same(fs, es)) by { assert forall|n: int| 0 <= n < fs.len() implies (#[trigger] fs[n]).pattern@ == es[n].pattern@ && strs_p(fs[n]) == strs_p(es[n]) by { assert(es[n].pattern@ == fs[n].pattern@); } }
    d_fail(r, s, i, es, fs, x, a, b);
    d_fail(s, r, i, fs, es, y, c, d);
    if a < c { assert(ts_fail(s, i, fs[a], fs[a].paths@.len() as int)); }
    if c < a { assert(ts_fail(r, i, es[c], es[c].paths@.len() as int)); }
    assert(a == c && b == d);
    det::one_answer(r, s, ts_cand(i, es[a], b), x, y);
}
proof fn d_pick(r: Resolver, s: Resolver, i: InfoV, es: Seq<MappingEntry>, fs: Seq<MappingEntry>, x: StV, y: StV)
    requires r.options == s.options, ents_same(es, fs), ts_pick(r, i, es, x), ts_pick(s, i, fs, y), ensures same(x, y)
{
    assert(ents_same(fs, es)) by { assert forall|n: int| 0 <= n < fs.len() implies (#[trigger] fs[n]).pattern@ == es[n].pattern@ && strs_p(fs[n]) == strs_p(es[n]) by { assert(es[n].pattern@ == fs[n].pattern@); } }
    let h = exists|a: int, b: int| 0 <= a < es.len() && ts_fails(r, i, es, a) && RES(r, #[trigger] ts_cand(i, es[a], b), x) && ts_hit(r, i, es[a], x, b);
    let g = exists|a: int, b: int| 0 <= a < fs.len() && ts_fails(s, i, fs, a) && RES(s, #[trigger] ts_cand(i, fs[a], b), y) && ts_hit(s, i, fs[a], y, b);
    if h {
        let (a, b) = choose|a: int, b: int| 0 <= a < es.len() && ts_fails(r, i, es, a) && RES(r, #[trigger] ts_cand(i, es[a], b), x) && ts_hit(r, i, es[a], x, b);
        d_fail(r, s, i, es, fs, x, a, b);
        if g {
            let (c, d) = choose|a: int, b: int| 0 <= a < fs.len() && ts_fails(s, i, fs, a) && RES(s, #[trigger] ts_cand(i, fs[a], b), y) && ts_hit(s, i, fs[a], y, b);
            d_hit(r, s, i, es, fs, x, y, a, b, c, d);
        } else { assert(ts_fail(s, i, fs[a], fs[a].paths@.len() as int)); }
    } else if g {
        let (c, d) = choose|a: int, b: int| 0 <= a < fs.len() && ts_fails(s, i, fs, a) && RES(s, #[trigger] ts_cand(i, fs[a], b), y) && ts_hit(s, i, fs[a], y, b);
        d_fail(s, r, i, fs, es, y, c, d);
        assert(ts_fail(r, i, es[c], es[c].paths@.len() as int));
    } else { det::one_answer(r, s, i, x, y); }
}
pub proof fn one_ts(r: Resolver, s: Resolver, i: InfoV, loc: Seq<char>, x: StV, y: StV) requires r.options == s.options, TSRES(r, i, loc, x), TSRES(s, i, loc, y), ensures same(x, y)
{
    let a = choose|j: Option<Value>| #[trigger] TSV(r, loc, j) && match j { None => reason(x), Some(v) => if ts_ok(v) { ts_found(r, i, loc, v, x) } else { reason(x) } };
    let b = choose|j: Option<Value>| #[trigger] TSV(s, loc, j) && match j { None => reason(y), Some(v) => if ts_ok(v) { ts_found(s, i, loc, v, y) } else { reason(y) } };
    one_tsconfig(r, s, loc, a, b);
    match (a, b) { (Some(u), Some(v)) => {
        d_ts_paths(u, v);
        if ts_ok(u) {
            let (b, p, es) = choose|b: Option<String>, p: Option<HashMap<String, Vec<String>>>, es: Seq<MappingEntry>| #[trigger] ts_is(u, b, p) && #[trigger] ts_table(optv(b), opt_map(p), loc, es) && ts_pick(r, i, es, x);
            let (c, q, fs) = choose|b: Option<String>, p: Option<HashMap<String, Vec<String>>>, es: Seq<MappingEntry>| #[trigger] ts_is(v, b, p) && #[trigger] ts_table(optv(b), opt_map(p), loc, es) && ts_pick(s, i, es, y);
            d_table(u, v, loc, b, p, es, c, q, fs);
            d_pick(r, s, i, es, fs, x, y);
        }
    } _ => {} }
}
/// C18: two answers of resolve() to one request under one configuration
pub proof fn one_result(r: Resolver, s: Resolver, i: InfoV, a: StV, b: StV, x: Result<ResolveResult, String>, y: Result<ResolveResult, String>)
    requires r.options == s.options, search(r, i, a), answer(r, a, x), search(s, i, b), answer(s, b, y), ensures out_same(x, y)
{
    match r.options.tsconfig { None => { det::one_answer(r, s, i, a, b); } Some(t) => { one_ts(r, s, i, t@, a, b); } }
}
/// C18, C19: two answers to one side-effects query
pub proof fn one_side(r: Resolver, s: Resolver, p: Seq<char>, x: Result<Option<(PathBuf, Option<SideEffects>)>, String>, y: Result<Option<(PathBuf, Option<SideEffects>)>, String>)
    requires r.options == s.options, side_rule(r, p, x), side_rule(s, p, y), ensures side_same(x, y)
{
    let a = side_pkg(r, p, x); let b = side_pkg(s, p, y);
    det::d_pkg(r, s, p, a, b);
}
proof fn side_pkg(r: Resolver, path: Seq<char>, out: Result<Option<(PathBuf, Option<SideEffects>)>, String>) -> (p: LRes) requires side_rule(r, path, out),
    ensures pkg_rel(r, path, p), match out { Ok(None) => p is Ok && p->Ok_0 is None, Ok(Some(x)) => p is Ok && p->Ok_0 is Some && r.options.description_file is Some && x.0@ == p_join(p->Ok_0->Some_0.abs_dir_path@, r.options.description_file.unwrap()@) && x.1 == p->Ok_0->Some_0.side_effects, Err(e) => p is Err }
{
    match out {
        Ok(None) => choose|p: LRes| #[trigger] pkg_rel(r, path, p) && p is Ok && p->Ok_0 is None,
        Ok(Some(x)) => choose|p: LRes| #[trigger] pkg_rel(r, path, p) && p is Ok && p->Ok_0 is Some && r.options.description_file is Some && x.0@ == p_join(p->Ok_0->Some_0.abs_dir_path@, r.options.description_file.unwrap()@) && x.1 == p->Ok_0->Some_0.side_effects,
        Err(e) => choose|p: LRes| #[trigger] pkg_rel(r, path, p) && p is Err,
    }
}
} // mod dts
