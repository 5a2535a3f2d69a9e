// ---------- tsconfig ----------
/// `a` with what it leaves open (absent or null) taken from `b`
pub open spec fn or_null(m: Map<Seq<char>, Value>, k: Seq<char>) -> Value { if m.dom().contains(k) { m[k] } else { Value::Null } }
pub open spec fn mrg(a: Value, b: Value, out: Value) -> bool decreases b, 0int via mrg_dec {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => match out {
            Value::Object(o) => mrg_at(x.m(), y, y.e().len() as int, o.m()) && mrg_keep(x.m(), y, y.e().len() as int, o.m()),
            _ => false,
        },
        (Value::Null, _) => out == b,
        _ => out == a,
    }
}
/// the first n keys of `b`
pub open spec fn mrg_at(am: Map<Seq<char>, Value>, b: IndexMap<String, Value>, n: int, om: Map<Seq<char>, Value>) -> bool decreases b, n via mrg_at_dec {
    n <= 0 || n > b.e().len() || (mrg_at(am, b, n - 1, om) && om.dom().contains(b.e()[n - 1].0) && mrg(or_null(am, b.e()[n - 1].0), b.e()[n - 1].1, om[b.e()[n - 1].0]))
}
#[via_fn] proof fn mrg_dec(a: Value, b: Value, out: Value) {}
#[via_fn] proof fn mrg_at_dec(am: Map<Seq<char>, Value>, b: IndexMap<String, Value>, n: int, om: Map<Seq<char>, Value>) { if 0 < n <= b.e().len() { ax_im_dec(b, n - 1); } }
pub open spec fn among(b: IndexMap<String, Value>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] b.e()[i]).0 == k }
/// all other keys are as they were
pub open spec fn mrg_keep(am: Map<Seq<char>, Value>, b: IndexMap<String, Value>, n: int, om: Map<Seq<char>, Value>) -> bool {
    forall|k: Seq<char>| !among(b, n, k) ==> #[trigger] om.dom().contains(k) == am.dom().contains(k) && (am.dom().contains(k) ==> om[k] == am[k])
}
pub proof fn lem_mrg_same(am: Map<Seq<char>, Value>, b: IndexMap<String, Value>, n: int, x: Map<Seq<char>, Value>, y: Map<Seq<char>, Value>)
    requires mrg_at(am, b, n, x), n <= b.e().len(), forall|i: int| 0 <= i < n ==> y.dom().contains((#[trigger] b.e()[i]).0) == x.dom().contains(b.e()[i].0) && y[b.e()[i].0] == x[b.e()[i].0],
    ensures mrg_at(am, b, n, y),
    decreases n
{ if n > 0 { assert(b.e()[n - 1].0 == b.e()[n - 1].0); lem_mrg_same(am, b, n - 1, x, y); } }
pub proof fn lem_mrg_step(am: Map<Seq<char>, Value>, b: IndexMap<String, Value>, n: int, x: Map<Seq<char>, Value>, k: Seq<char>, w: Value)
    requires 0 <= n < b.e().len(), mrg_at(am, b, n, x), mrg_keep(am, b, n, x), k == b.e()[n].0, mrg(or_null(am, k), b.e()[n].1, w),
    ensures or_null(x, k) == or_null(am, k), mrg_at(am, b, n + 1, x.insert(k, w)), mrg_keep(am, b, n + 1, x.insert(k, w)),
{
    lem_mrg_old(am, b, n, x);
    let y = x.insert(k, w);
    ax_im_nodup(b);
    assert forall|i: int| 0 <= i < n implies y.dom().contains((#[trigger] b.e()[i]).0) == x.dom().contains(b.e()[i].0) && y[b.e()[i].0] == x[b.e()[i].0] by {}
    lem_mrg_same(am, b, n, x, y);
    assert forall|q: Seq<char>| !among(b, n + 1, q) implies #[trigger] y.dom().contains(q) == am.dom().contains(q) && (am.dom().contains(q) ==> y[q] == am[q]) by {
        assert(b.e()[n].0 != q) by { if b.e()[n].0 == q { assert(among(b, n + 1, q)); } }
        assert(!among(b, n, q)) by { if among(b, n, q) { let i = choose|i: int| 0 <= i < n && (#[trigger] b.e()[i]).0 == q; assert(b.e()[i].0 == q); assert(among(b, n + 1, q)); } }
        assert(x.dom().contains(q) == am.dom().contains(q));
    }
}
/// the key that comes next is as it was
pub proof fn lem_mrg_old(am: Map<Seq<char>, Value>, b: IndexMap<String, Value>, n: int, x: Map<Seq<char>, Value>)
    requires 0 <= n < b.e().len(), mrg_keep(am, b, n, x),
    ensures or_null(x, b.e()[n].0) == or_null(am, b.e()[n].0),
{
    let k = b.e()[n].0;
    ax_im_nodup(b);
    assert(!among(b, n, k));
    assert(x.dom().contains(k) == am.dom().contains(k));
}
pub open spec fn key_extends() -> Seq<char> { seq!['e', 'x', 't', 'e', 'n', 'd', 's'] }
pub open spec fn key_options() -> Seq<char> { seq!['c', 'o', 'm', 'p', 'i', 'l', 'e', 'r', 'O', 'p', 't', 'i', 'o', 'n', 's'] }
pub open spec fn key_base() -> Seq<char> { seq!['b', 'a', 's', 'e', 'U', 'r', 'l'] }
pub open spec fn key_paths() -> Seq<char> { seq!['p', 'a', 't', 'h', 's'] }
/// the value that a tsconfig stands for, None: it cannot be used
pub type TsRel = spec_fn(Seq<char>, Option<Value>) -> bool;
#[verifier::opaque] pub open spec fn in_ts(w: TsRel, loc: Seq<char>, out: Option<Value>) -> bool { w(loc, out) }
pub open spec fn ts_text(loc: Seq<char>) -> Option<Value> { match fs_text(loc) { Some(t) => match jsonc_of(t) { Some(x) => x, None => None }, None => None } }
pub open spec fn ts_over(j: Value, b: Option<Value>, out: Option<Value>) -> bool { match b { None => out is None, Some(v) => match out { Some(o) => mrg(j, v, o), None => false } } }
pub open spec fn ts_merged(w: TsRel, j: Value, p: Seq<char>, out: Option<Value>) -> bool { exists|b: Option<Value>| #[trigger] in_ts(w, p, b) && ts_over(j, b, out) }
pub open spec fn ts_ext(w: TsRel, j: Value, loc: Seq<char>, s: Seq<char>, st: StV, out: Option<Value>) -> bool {
    match st {
        StV::Succ(i) => ts_merged(w, j, at_v(i), out),
        StV::Ign => out is None,
        _ => out == Some(j),
    }
}
pub open spec fn tsv_rule(w: TsRel, r: Resolver, loc: Seq<char>, out: Option<Value>) -> bool {
    match ts_text(loc) {
        None => out is None,
        Some(j) => match get_str(j, key_extends()) {
            None => out == Some(j),
            Some(s) => exists|st: StV| #[trigger] seen(st) && RES(r, request_info(p_parent(loc).unwrap(), s), st) && ts_ext(w, j, loc, s, st, out),
        }
    }
}
/// its paths
pub open spec fn ts_paths(j: Value) -> Option<Value> { match vget(j, key_options()) { Some(o) => vget(o, key_paths()), None => None } }
pub open spec fn ts_base(j: Value) -> Option<Seq<char>> { match vget(j, key_options()) { Some(o) => get_str(o, key_base()), None => None } }
pub open spec fn str_list(v: Value) -> bool { match v { Value::Array(a) => strs_only(a), _ => false } }
pub open spec fn paths_ok(v: Value) -> bool { match v { Value::Object(o) => forall|i: int| 0 <= i < o.e().len() ==> str_list((#[trigger] o.e()[i]).1), _ => false } }
pub open spec fn ts_ok(j: Value) -> bool { match ts_paths(j) { Some(v) => paths_ok(v), None => true } }
pub open spec fn list_is(v: Value, l: Seq<String>) -> bool { match v { Value::Array(a) => all_strings(l, a@, a@.len() as int), _ => false } }
/// the first n entries of the table
pub open spec fn paths_at(o: IndexMap<String, Value>, n: int, m: Map<Seq<char>, Vec<String>>) -> bool {
    (forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> among(o, n, k)) && forall|i: int| 0 <= i < n ==> m.dom().contains((#[trigger] o.e()[i]).0) && list_is(o.e()[i].1, m[o.e()[i].0]@)
}
pub open spec fn paths_is(v: Value, m: HashMap<String, Vec<String>>) -> bool { match v { Value::Object(o) => paths_at(o, o.e().len() as int, m@), _ => false } }
pub open spec fn opt_paths(v: Option<Value>, p: Option<HashMap<String, Vec<String>>>) -> bool { match (v, p) { (Some(v), Some(m)) => paths_is(v, m), (None, None) => true, _ => false } }
pub open spec fn ts_is(j: Value, b: Option<String>, p: Option<HashMap<String, Vec<String>>>) -> bool { str_is(b, ts_base(j)) && opt_paths(ts_paths(j), p) }
pub open spec fn ts_conf(j: Value, c: TsConfig) -> bool { match c.compiler_options { Some(o) => ts_is(j, o.base_url, o.paths), None => ts_is(j, None, None) } }
pub open spec fn ts_closed(w: TsRel, r: Resolver) -> bool { forall|loc: Seq<char>, out: Option<Value>| tsv_rule(w, r, loc, out) ==> #[trigger] in_ts(w, loc, out) }
/// the tsconfig at loc, with everything it extends: the least relation that satisfies the rule
#[verifier::opaque] pub open spec fn TSV(r: Resolver, loc: Seq<char>, out: Option<Value>) -> bool { forall|w: TsRel| #[trigger] ts_closed(w, r) ==> in_ts(w, loc, out) }
#[verifier::opaque] pub open spec fn ts_all(r: Resolver) -> TsRel { |loc: Seq<char>, out: Option<Value>| TSV(r, loc, out) }
pub mod tsr {
use super::*;
pub broadcast proof fn bl_tsv(r: Resolver, loc: Seq<char>, out: Option<Value>) ensures #[trigger] in_ts(ts_all(r), loc, out) == TSV(r, loc, out) { reveal(in_ts); reveal(ts_all); }
pub broadcast proof fn bl_tsv2(r: Resolver, loc: Seq<char>, out: Option<Value>) ensures in_ts(ts_all(r), loc, out) == #[trigger] TSV(r, loc, out) { bl_tsv(r, loc, out); }
pub broadcast proof fn ax_tsv(r: Resolver, loc: Seq<char>, out: Option<Value>) ensures tsv_rule(ts_all(r), r, loc, out) ==> #[trigger] TSV(r, loc, out)
{
    if tsv_rule(ts_all(r), r, loc, out) {
        reveal(TSV);
        assert forall|w: TsRel| #[trigger] ts_closed(w, r) implies in_ts(w, loc, out) by {
            assert forall|l: Seq<char>, o: Option<Value>| #[trigger] in_ts(ts_all(r), l, o) implies in_ts(w, l, o) by { bl_tsv(r, l, o); }
            assert(tsv_rule(w, r, loc, out));
        }
    }
}
} // mod tsr
pub proof fn lem_paths_step(o: IndexMap<String, Value>, n: int, m: Map<Seq<char>, Vec<String>>, l: Vec<String>)
    requires 0 <= n < o.e().len(), paths_at(o, n, m), list_is(o.e()[n].1, l@),
    ensures paths_at(o, n + 1, m.insert(o.e()[n].0, l)),
{
    let k = o.e()[n].0;
    let y = m.insert(k, l);
    ax_im_nodup(o);
    assert forall|q: Seq<char>| #[trigger] y.dom().contains(q) implies among(o, n + 1, q) by {
        if q == k { assert(o.e()[n].0 == k); } else { assert(m.dom().contains(q)); let i = choose|i: int| 0 <= i < n && (#[trigger] o.e()[i]).0 == q; assert(o.e()[i].0 == q); }
    }
    assert forall|i: int| 0 <= i < n + 1 implies y.dom().contains((#[trigger] o.e()[i]).0) && list_is(o.e()[i].1, y[o.e()[i].0]@) by {
        if i < n { assert(o.e()[i].0 != k); assert(m.dom().contains(o.e()[i].0)); }
    }
}
pub proof fn lem_paths_none(o: IndexMap<String, Value>) ensures paths_at(o, 0, Map::<Seq<char>, Vec<String>>::empty()) {}
// ---------- the paths table ----------
/// what the '*' of the pattern stands for: at least one character between prefix and suffix
pub open spec fn star_of(p: Seq<char>, t: Seq<char>) -> Option<Seq<char>> {
    let k = first_of(p, '*');
    if k < p.len() && t.len() >= p.len() && is_prefix(p.take(k), t) && is_suffix(p.skip(k + 1), t) { Some(t.subrange(k, t.len() - (p.len() - k - 1))) } else { None }
}
pub proof fn lem_cat(s: Seq<char>, x: int) requires 0 <= x <= s.len(), ensures blen(s.take(x)) + blen(s.skip(x)) == blen(s)
{
    lem::bl_sub(s, x, s.len() as int, s.len() - x);
    assert(s.subrange(x, s.len() as int).take(s.len() - x) =~= s.skip(x));
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lem_star(p: Seq<char>, t: Seq<char>)
    ensures ({
        let k = first_of(p, '*');
        let e = t.len() - (p.len() - k - 1);
        &&& 0 <= k <= p.len()
        &&& k < p.len() ==> blen(p.take(k + 1)) == blen(p.take(k)) + 1 && blen(p) == blen(p.take(k)) + 1 + blen(p.skip(k + 1)) && is_bnd(p, blen(p.take(k)) as int) && is_bnd(p, blen(p.take(k)) as int + 1) && cidx(p, blen(p.take(k)) as int) == k && cidx(p, blen(p.take(k)) as int + 1) == k + 1
        &&& k < p.len() && is_prefix(p.take(k), t) ==> blen(t.take(k)) == blen(p.take(k)) && is_bnd(t, blen(p.take(k)) as int) && cidx(t, blen(p.take(k)) as int) == k
        &&& k < p.len() && is_suffix(p.skip(k + 1), t) ==> blen(t.take(e)) + blen(p.skip(k + 1)) == blen(t) && is_bnd(t, blen(t.take(e)) as int) && cidx(t, blen(t.take(e)) as int) == e
        &&& k < p.len() && is_prefix(p.take(k), t) && is_suffix(p.skip(k + 1), t) ==> (blen(t) >= blen(p)) == (t.len() >= p.len())
        &&& p.subrange(0, k) == p.take(k)
        &&& k < p.len() ==> p.subrange(k + 1, p.len() as int) == p.skip(k + 1)
    })
{
    let k = first_of(p, '*');
    let e = t.len() - (p.len() - k - 1);
    lemma_first_of(p, '*');
    assert(p.subrange(0, k) =~= p.take(k));
    if k < p.len() {
        lemma_cidx(p, k);
        lemma_cidx(p, k + 1);
        lem::bl_next(p, k);
        lem_cat(p, k + 1);
        assert(p.subrange(k + 1, p.len() as int) =~= p.skip(k + 1));
        if is_prefix(p.take(k), t) { assert(t.take(k) =~= p.take(k)); lemma_cidx(t, k); }
        if is_suffix(p.skip(k + 1), t) { assert(t.skip(e) =~= p.skip(k + 1)); lem_cat(t, e); lemma_cidx(t, e); }
        if is_prefix(p.take(k), t) && is_suffix(p.skip(k + 1), t) {
            if e >= k + 1 { lemma_blen_take(t, k, e); } else { lemma_blen_take(t, e, k); }
        }
    }
}
/// patterns without '*' come first, longer prefixes come before shorter ones; then the text decides
pub open spec fn pat_at(p: Seq<char>) -> Option<int> { let k = first_of(p, '*'); if k < p.len() { Some(blen(p.take(k)) as int) } else { None } }
pub open spec fn pat_ord(a: Seq<char>, b: Seq<char>) -> Ordering {
    match (pat_at(a), pat_at(b)) {
        (None, Some(_)) => Ordering::Less,
        (Some(_), None) => Ordering::Greater,
        (Some(i), Some(j)) => if i > j { Ordering::Less } else if i < j { Ordering::Greater } else { str_ord(a, b) },
        (None, None) => str_ord(a, b),
    }
}
pub open spec fn pat_le(a: Seq<char>, b: Seq<char>) -> bool { pat_ord(a, b) != Ordering::Greater }
pub proof fn lem_pat_total(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures pat_le(a, b) || pat_le(b, a), pat_le(a, b) && pat_le(b, c) ==> pat_le(a, c), (pat_ord(a, b) == Ordering::Less) == !pat_le(b, a)
{ ax_str_lt(a, b, c); ax_str_lt(a, c, b); ax_str_lt(b, a, c); }
pub proof fn lem_star_all(p: Seq<char>, t: Seq<char>)
    requires p == seq!['*'], blen(t) >= blen(p),
    ensures star_of(p, t) == Some(t),
{
    lemma_first_of(p, '*');
    reveal(first_of);
    assert(p[0] == '*');
    lemma_blen_whole(t);
    lemma_blen_whole(p);
    assert(p.take(0) =~= t.take(0));
    assert(p.skip(1) =~= t.skip(t.len() as int));
    if t.len() == 0 { lemma_blen_take(t, 0, 0); }
    assert(t.subrange(0, t.len() as int) =~= t);
}
pub proof fn lem_pat_facts()
    ensures forall|x: Seq<char>, y: Seq<char>| (#[trigger] pat_ord(x, y) == Ordering::Less) == !pat_le(y, x),
        forall|x: Seq<char>, y: Seq<char>| #[trigger] pat_le(x, y) || pat_le(y, x),
        forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| #[trigger] pat_le(x, y) && #[trigger] pat_le(y, z) ==> pat_le(x, z),
{
    assert forall|x: Seq<char>, y: Seq<char>| (#[trigger] pat_ord(x, y) == Ordering::Less) == !pat_le(y, x) by { lem_pat_total(x, y, x); }
    assert forall|x: Seq<char>, y: Seq<char>| #[trigger] pat_le(x, y) || pat_le(y, x) by { lem_pat_total(x, y, x); }
    assert forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| #[trigger] pat_le(x, y) && #[trigger] pat_le(y, z) implies pat_le(x, z) by { lem_pat_total(x, y, z); }
}
/// one entry: its paths taken against the base directory
pub open spec fn ent_is(e: MappingEntry, base: Seq<char>, l: Seq<String>) -> bool { e.paths@.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] e.paths@[i])@ == p_join(base, l[i]@) }
/// every pattern of the table once
pub open spec fn ents_all(m: Map<Seq<char>, Vec<String>>, base: Seq<char>, es: Seq<MappingEntry>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> m.dom().contains((#[trigger] es[i]).pattern@) && ent_is(es[i], base, m[es[i].pattern@]@)
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).pattern@ != (#[trigger] es[j]).pattern@
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).pattern@ == k
}
pub open spec fn ents_sorted(es: Seq<MappingEntry>) -> bool { forall|i: int, j: int| 0 <= i < j < es.len() ==> pat_le((#[trigger] es[i]).pattern@, (#[trigger] es[j]).pattern@) }
pub proof fn lem_ents_perm(m: Map<Seq<char>, Vec<String>>, base: Seq<char>, a: Seq<MappingEntry>, b: Seq<MappingEntry>)
    requires ents_all(m, base, a), a.len() == b.len(), exists|p: Seq<int>| #[trigger] is_perm(p, a.len() as int) && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]],
    ensures ents_all(m, base, b),
{
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, a.len() as int) && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]];
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).pattern@ != (#[trigger] b[j]).pattern@ by {
        assert(p[i] != p[j]);
        if p[i] < p[j] { assert(a[p[i]].pattern@ != a[p[j]].pattern@); } else { assert(a[p[j]].pattern@ != a[p[i]].pattern@); }
    }
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).pattern@ == k by {
        let x = choose|x: int| 0 <= x < a.len() && (#[trigger] a[x]).pattern@ == k;
        assert(p.contains(x));
        let i = choose|i: int| 0 <= i < p.len() && p[i] == x;
        assert(b[i].pattern@ == k);
    }
}
/// the table of a tsconfig at loc
pub open spec fn ts_table(base: Option<Seq<char>>, paths: Option<Map<Seq<char>, Vec<String>>>, loc: Seq<char>, es: Seq<MappingEntry>) -> bool {
    match (base, paths) { (Some(b), Some(m)) => ents_all(m, p_join(p_parent(loc).unwrap(), b), es) && ents_sorted(es), _ => es.len() == 0 }
}
pub open spec fn opt_map(p: Option<HashMap<String, Vec<String>>>) -> Option<Map<Seq<char>, Vec<String>>> { match p { Some(m) => Some(m@), None => None } }
pub open spec fn star(p: Seq<char>, t: Seq<char>) -> Option<Seq<char>> { if p == t { Some(Seq::<char>::empty()) } else { star_of(p, t) } }
/// the request that the path b of an entry stands for
pub open spec fn ts_cand(i: InfoV, e: MappingEntry, b: int) -> InfoV { InfoV { path: replace_c(e.paths@[b]@, '*', star(e.pattern@, i.target).unwrap()), target: Seq::<char>::empty(), ..i } }
/// the first n paths of an entry do not resolve
pub open spec fn ts_fail(r: Resolver, i: InfoV, e: MappingEntry, n: int) -> bool { star(e.pattern@, i.target) is None || forall|b: int| 0 <= b < n ==> res_fails(all(r), r, #[trigger] ts_cand(i, e, b)) }
pub open spec fn ts_fails(r: Resolver, i: InfoV, es: Seq<MappingEntry>, n: int) -> bool { forall|a: int| 0 <= a < n ==> ts_fail(r, i, #[trigger] es[a], es[a].paths@.len() as int) }
/// the first path that resolves, or the request itself
pub open spec fn ts_hit(r: Resolver, i: InfoV, e: MappingEntry, out: StV, b: int) -> bool { 0 <= b < e.paths@.len() && star(e.pattern@, i.target) is Some && ts_fail(r, i, e, b) && succ(out) }
pub open spec fn ts_pick(r: Resolver, i: InfoV, es: Seq<MappingEntry>, out: StV) -> bool {
    ||| exists|a: int, b: int| 0 <= a < es.len() && ts_fails(r, i, es, a) && RES(r, #[trigger] ts_cand(i, es[a], b), out) && ts_hit(r, i, es[a], out, b)
    ||| ts_fails(r, i, es, es.len() as int) && RES(r, i, out)
}
pub open spec fn ts_found(r: Resolver, i: InfoV, loc: Seq<char>, j: Value, out: StV) -> bool {
    exists|b: Option<String>, p: Option<HashMap<String, Vec<String>>>, es: Seq<MappingEntry>| #[trigger] ts_is(j, b, p) && #[trigger] ts_table(optv(b), opt_map(p), loc, es) && ts_pick(r, i, es, out)
}
/// resolution with a tsconfig
pub open spec fn TSRES(r: Resolver, i: InfoV, loc: Seq<char>, out: StV) -> bool {
    exists|j: Option<Value>| #[trigger] TSV(r, loc, j) && match j { None => reason(out), Some(v) => if ts_ok(v) { ts_found(r, i, loc, v, out) } else { reason(out) } }
}
/// of two matching patterns, the one tried first has no '*' or has no shorter prefix
pub proof fn lem_pat_meaning(a: Seq<char>, b: Seq<char>, t: Seq<char>)
    requires pat_le(a, b), star_of(b, t) is Some,
    ensures first_of(a, '*') == a.len() || star_of(a, t) is Some ==> first_of(a, '*') == a.len() || first_of(a, '*') >= first_of(b, '*'),
{
    let x = first_of(a, '*'); let y = first_of(b, '*');
    lem_star(a, t); lem_star(b, t);
    if x < a.len() && star_of(a, t) is Some && x < y { lemma_blen_take(t, x, y); }
}
