// ---------- paths without '.' and '..' ----------
pub open spec fn is_root(c: Seq<CompV>) -> bool { c.len() > 0 && c[0] is Root }
/// one component more
pub open spec fn norm_step(acc: Seq<CompV>, c: CompV) -> Seq<CompV> {
    match c {
        CompV::Root => seq![CompV::Root],
        CompV::Cur => acc,
        CompV::Up => if acc.len() > 0 && !(acc.last() is Root) { acc.drop_last() } else { acc },
        CompV::Name(n) => acc.push(c),
    }
}
pub open spec fn norm(c: Seq<CompV>) -> Seq<CompV> decreases c.len() { if c.len() == 0 { c } else { norm_step(norm(c.drop_last()), c.last()) } }
/// a root at the front at most, names only behind it
pub open spec fn plain(c: Seq<CompV>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]) is Name || c[i] is Root && i == 0 }
pub open spec fn rooted_first(c: Seq<CompV>) -> bool { forall|i: int| 0 <= i < c.len() && (#[trigger] c[i]) is Root ==> i == 0 }
/// the result has neither '.' nor '..', is absolute exactly when the input is, and is its own normal form
pub proof fn lemma_norm(c: Seq<CompV>)
    requires rooted_first(c),
    ensures plain(norm(c)), is_root(norm(c)) == is_root(c), norm(norm(c)) =~= norm(c),
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last();
        assert(rooted_first(d)) by { assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Root implies i == 0 by { assert(c[i] is Root); } }
        lemma_norm(d);
        let a = norm(d);
        if c.len() == 1 { assert(d.len() == 0); assert(a.len() == 0); }
        if c.last() is Root { assert(c[c.len() - 1] is Root); assert(c.len() == 1); }
        assert(plain(norm(c)));
        lemma_norm_plain(norm(c));
    }
}
pub proof fn lemma_norm_ends(c: Seq<CompV>) ensures c.take(c.len() as int) == c, norm(c.take(0)) == c.take(0), c.take(0).len() == 0
{ assert(c.take(c.len() as int) =~= c); }
pub proof fn lemma_norm_at(c: Seq<CompV>, i: int) requires 0 <= i < c.len(), ensures norm(c.take(i + 1)) == norm_step(norm(c.take(i)), c[i])
{ assert(c.take(i + 1).drop_last() =~= c.take(i)); }
pub proof fn lemma_norm_plain(c: Seq<CompV>) requires plain(c), ensures norm(c) =~= c decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is Name || d[i] is Root && i == 0 by { assert(c[i] is Name || c[i] is Root && i == 0); }
        lemma_norm_plain(d);
        assert(c[c.len() - 1] is Name || c.len() == 1);
    }
}
/// the target of a map stays in its directory, whatever the directory is called
pub open spec fn starts(base: Seq<CompV>, c: Seq<CompV>) -> bool { base.len() <= c.len() && c.take(base.len() as int) == base }
pub open spec fn inside(d: Seq<char>, p: Seq<char>) -> bool { starts(norm(p_comps(d)), norm(p_comps(p))) }
proof fn lem_norm_rest(b: Seq<CompV>, s: Seq<Seq<char>>)
    requires forall|n: int| 0 <= n <= s.len() ==> #[trigger] seg_depth(s, n) >= 0,
    ensures starts(norm(b), norm(b + rest_comps(s))), norm(b + rest_comps(s)).len() == norm(b).len() + seg_depth(s, s.len() as int),
        forall|i: int| norm(b).len() <= i < norm(b + rest_comps(s)).len() ==> (#[trigger] norm(b + rest_comps(s))[i]) is Name,
    decreases s.len()
{
    reveal(rest_comps);
    if s.len() == 0 { assert(b + rest_comps(s) =~= b); assert(norm(b).take(norm(b).len() as int) =~= norm(b)); }
    else {
        let d = s.drop_last();
        lem_seg_depth(s, d, d.len() as int);
        assert forall|n: int| 0 <= n <= d.len() implies #[trigger] seg_depth(d, n) >= 0 by { lem_seg_depth(s, d, n); assert(seg_depth(s, n) >= 0); }
        lem_norm_rest(b, d);
        let x = seg_comp(s.last(), 1);
        let c = b + rest_comps(d);
        let e = norm(c);
        assert(seg_depth(s, s.len() as int) >= 0);
        assert(b + rest_comps(s) =~= c + x);
        if x.len() == 0 { assert(c + x =~= c); }
        else {
            assert(x =~= seq![x[0]]);
            assert((c + x).drop_last() =~= c);
            assert(norm(c + x) == norm_step(e, x[0]));
            if x[0] is Up {
                assert(e.len() > norm(b).len());
                assert(e[e.len() - 1] is Name);
                assert(e.drop_last().take(norm(b).len() as int) =~= e.take(norm(b).len() as int));
            } else {
                assert(e.push(x[0]).take(norm(b).len() as int) =~= e.take(norm(b).len() as int));
            }
        }
    }
}
proof fn lem_seg_depth(s: Seq<Seq<char>>, d: Seq<Seq<char>>, n: int) requires n <= d.len() <= s.len(), forall|i: int| 0 <= i < d.len() ==> d[i] == s[i], ensures seg_depth(s, n) == seg_depth(d, n) decreases n
{ if n > 0 { lem_seg_depth(s, d, n - 1); } }
pub proof fn lem_inside(d: Seq<char>, t: Seq<char>) requires contained(t), ensures inside(d, p_join(d, t)), inside(d, d)
{
    lem_join_comps(d, t);
    let s = split_c(t, '/');
    assert(norm(p_comps(d)).take(norm(p_comps(d)).len() as int) =~= norm(p_comps(d)));
    if d.len() == 0 { assert(d =~= Seq::<char>::empty()); lem_comps_empty(); assert(norm(p_comps(d)).len() == 0); assert(norm(p_comps(p_join(d, t))).take(0) =~= norm(p_comps(d))); }
    else { lem_norm_rest(p_comps(d), s); }
}
pub broadcast proof fn bl_inside(d: Seq<char>, i: InfoV) ensures contained(i.target) && i.path == d ==> #[trigger] inside(d, at_v(i))
{ if contained(i.target) && i.path == d { lem_inside(d, i.target); } }
// ---------- the answer that is given ----------
/// the path that a found file is reported as
pub open spec fn real_path(r: Resolver, p: Seq<char>, out: Seq<char>) -> bool { if r.options.symlinks { fs_real(p) == Some(out) } else { lexical(p, out) } }
pub open spec fn lexical(p: Seq<char>, out: Seq<char>) -> bool { p_comps(out) == norm(p_comps(p)) }
pub open spec fn answer(r: Resolver, s: StV, out: Result<ResolveResult, String>) -> bool {
    match s {
        StV::Succ(i) => match out {
            Ok(ResolveResult::Info(j)) => real_path(r, i.path, j.path@) && iv(j) == repath(i, j.path@),
            Ok(ResolveResult::Ignored) => false,
            Err(e) => r.options.symlinks && fs_real(i.path).is_none() && e@ != tag(),
        },
        StV::Ign => out is Ok && out->Ok_0 is Ignored,
        StV::Err(e) => out is Err && out->Err_0@ == e,
        StV::Resv(_) => false,
    }
}
pub open spec fn request_info(path: Seq<char>, request: Seq<char>) -> InfoV { InfoV { path: path, target: target_of(request), query: query_of(request), fragment: fragment_of(request) } }
/// a found file of the search that led to the answer
pub open spec fn cand_ok(s: StV) -> bool { match s { StV::Succ(i) => fs_is_file(i.path) && i.target == Seq::<char>::empty(), StV::Err(e) => e != tag(), StV::Ign => true, StV::Resv(_) => false } }
pub open spec fn search(r: Resolver, i: InfoV, s: StV) -> bool { match r.options.tsconfig { None => RES(r, i, s), Some(t) => TSRES(r, i, t@, s) } }
/// a side-effects query
pub open spec fn side_rule(r: Resolver, path: Seq<char>, out: Result<Option<(PathBuf, Option<SideEffects>)>, String>) -> bool {
    match out {
        Ok(None) => exists|p: LRes| #[trigger] pkg_rel(r, path, p) && p is Ok && p->Ok_0 is None,
        Ok(Some(x)) => exists|p: LRes| #[trigger] pkg_rel(r, path, p) && p is Ok && p->Ok_0 is Some && r.options.description_file is Some
            && x.0@ == p_join(p->Ok_0->Some_0.abs_dir_path@, r.options.description_file.unwrap()@) && x.1 == p->Ok_0->Some_0.side_effects,
        Err(e) => e@ != tag() && exists|p: LRes| #[trigger] pkg_rel(r, path, p) && p is Err,
    }
}
pub open spec fn has_empty(e: Seq<String>) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i])@.len() == 0 }
