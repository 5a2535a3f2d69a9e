pub open spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }
pub proof fn lemma_first_of(s: Seq<char>, c: char)
    ensures 0 <= first_of(s, c) <= s.len(), forall|i: int| 0 <= i < first_of(s, c) ==> s[i] != c, first_of(s, c) < s.len() ==> s[first_of(s, c)] == c,
    decreases s.len()
{
    reveal(first_of);
    if s.len() != 0 && s[0] != c {
        lemma_first_of(s.skip(1), c);
        let k = first_of(s.skip(1), c);
        assert forall|i: int| 0 <= i < 1 + k implies s[i] != c by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        if 1 + k < s.len() { assert(s.skip(1)[k] == s[1 + k]); }
    }
}
pub proof fn lemma_split_bounds(s: Seq<char>)
    ensures 0 <= query_at(s) <= frag_at(s) <= s.len(), s.len() > 0 ==> frag_at(s) >= 1, s.len() > 0 && query_at(s) == 0 ==> s[0] == '?'
{
    if s.len() > 0 { lemma_first_of(s.skip(1), '#'); }
    let p = s.take(frag_at(s));
    lemma_first_of(p, '?');
    if s.len() > 0 && query_at(s) == 0 { assert(p[0] == s[0]); }
}
pub proof fn lemma_split_at(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures 0 <= query_at(s) <= frag_at(s) <= s.len(),
        1 <= i < frag_at(s) ==> s[i] != '#',
        i == frag_at(s) ==> s[i] == '#',
        i < query_at(s) ==> s[i] != '?',
        i == query_at(s) && i < frag_at(s) ==> s[i] == '?',
        frag_at(s) >= 1,
{
    lemma_split_bounds(s);
    let t = s.skip(1);
    lemma_first_of(t, '#');
    if 1 <= i { assert(t[i - 1] == s[i]); }
    let p = s.take(frag_at(s));
    lemma_first_of(p, '?');
    if i < frag_at(s) { assert(p[i] == s[i]); }
}
pub proof fn lemma_blen_take(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures blen(s.take(i)) + (j - i) <= blen(s.take(j)), blen(s.take(j)) <= blen(s.take(i)) + 4 * (j - i),
    decreases j - i
{
    reveal(blen);
    if i < j {
        lemma_blen_take(s, i, j - 1);
        assert(s.take(j).drop_last() =~= s.take(j - 1));
        assert(s.take(j).last() == s[j - 1]);
    }
}
pub broadcast proof fn lemma_cidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures cidx(s, #[trigger] blen(s.take(k)) as int) == k, is_bnd(s, blen(s.take(k)) as int),
{
    let b = blen(s.take(k)) as int;
    let c = cidx(s, b);
    assert(0 <= c <= s.len() && blen(s.take(c)) == b);
    if c < k { lemma_blen_take(s, c, k); } else if k < c { lemma_blen_take(s, k, c); }
}
pub proof fn lemma_blen_whole(s: Seq<char>) ensures s.take(s.len() as int) =~= s, blen(s) >= s.len(), blen(s) <= 4 * s.len(), cidx(s, blen(s) as int) == s.len(), is_bnd(s, blen(s) as int), cidx(s, 0) == 0, is_bnd(s, 0), blen(s.take(0)) == 0
{
    assert(s.take(s.len() as int) =~= s);
    lemma_blen_take(s, 0, s.len() as int);
    lemma_cidx(s, s.len() as int);
    lemma_cidx(s, 0);
    reveal(blen);
    assert(s.take(0) =~= Seq::<char>::empty());
}
pub proof fn lemma_blen2(s: Seq<char>)
    ensures blen(s) == 2 && s.len() == 2 ==> (s[0] as u32) < 0x80 && (s[1] as u32) < 0x80,
        s.len() == 2 && (s[0] as u32) < 0x80 && (s[1] as u32) < 0x80 ==> blen(s) == 2, blen(s) >= s.len(),
{
    reveal(blen);
    lemma_blen_whole(s);
    reveal_with_fuel(blen, 4);
    if s.len() == 2 { assert(s.drop_last().last() == s[0]); assert(s.drop_last().drop_last() =~= Seq::empty()); }
}

pub proof fn lemma_drive(tb: StrTable, t: Seq<char>)
    requires forall|s: Seq<char>| #[trigger] tb.mem(s) <==> s.len() == 3 && is_drive(s),
        forall|i: int| 0 <= i < tb.n() ==> tb.mem(#[trigger] tb.ent(i)),
        forall|s: Seq<char>| #[trigger] tb.mem(s) ==> exists|i: int| 0 <= i < tb.n() && #[trigger] tb.ent(i) == s,
    ensures forall|v: int, k: int| #[trigger] pma_occ(tb, t, v, k) && blen(t.take(k)) == 0 ==> k == 0 && t.len() >= 3 && is_drive(t),
        forall|v: int, k: int| #[trigger] pma_occ(tb, t, v, k) ==> blen(tb.ent(v)) < 100,
        t.len() >= 3 && is_drive(t) ==> exists|v: int| #[trigger] pma_occ(tb, t, v, 0),
        blen(t.take(0)) == 0,
{
    lemma_blen_whole(t);
    assert forall|v: int, k: int| #[trigger] pma_occ(tb, t, v, k) && blen(t.take(k)) == 0 implies k == 0 && t.len() >= 3 && is_drive(t) by {
        lemma_blen_take(t, 0, k);
        let s = tb.ent(v);
        assert(tb.mem(s));
        assert(t.subrange(0, 3) =~= s);
        assert(t[0] == s[0] && t[1] == s[1] && t[2] == s[2]);
    }
    assert forall|v: int, k: int| #[trigger] pma_occ(tb, t, v, k) implies blen(tb.ent(v)) < 100 by { lemma_blen_whole(tb.ent(v)); assert(tb.mem(tb.ent(v))); }
    if t.len() >= 3 && is_drive(t) {
        let s = t.subrange(0, 3);
        assert(tb.mem(s));
        let v = choose|i: int| 0 <= i < tb.n() && #[trigger] tb.ent(i) == s;
        assert(pma_occ(tb, t, v, 0));
    }
}
/// the places of '/' in a text, in order
pub proof fn lemma_filter_idx(t: Seq<char>, n: int, p: spec_fn((usize, char)) -> bool)
    requires 0 <= n <= t.len(), forall|x: (usize, char)| #[trigger] p(x) == (x.1 == '/'),
    ensures ({
        let f = char_idx(t).take(n).filter(p);
        let a = first_of(t, '/');
        let b = a + 1 + first_of(t.skip(a + 1), '/');
        &&& a >= n ==> f.len() == 0
        &&& a < n ==> f.len() > 0 && f[0].0 == blen(t.take(a)) as usize
        &&& a < n && b >= n ==> f.len() == 1
        &&& b < n ==> f.len() > 1 && f[1].0 == blen(t.take(b)) as usize
    })
    decreases n
{
    let a = first_of(t, '/');
    lemma_first_of(t, '/');
    let b = a + 1 + first_of(t.skip(a + 1), '/');
    lemma_first_of(t.skip(a + 1), '/');
    let c = char_idx(t);
    reveal(Seq::filter);
    if n > 0 {
        lemma_filter_idx(t, n - 1, p);
        assert(c.take(n).drop_last() =~= c.take(n - 1));
        assert(c.take(n).last() == c[n - 1]);
        let g = c.take(n - 1).filter(p);
        let f = c.take(n).filter(p);
        assert(p(c[n - 1]) == (t[n - 1] == '/'));
        assert(f =~= if t[n - 1] == '/' { g.push(c[n - 1]) } else { g });
        if n - 1 > a { assert(t.skip(a + 1)[n - 1 - (a + 1)] == t[n - 1]); }
        if n - 1 < a { assert(t[n - 1] != '/'); }
    }
}
pub mod lem {
use super::*;
pub broadcast proof fn bl_cidx(s: Seq<char>, b: int, k: int)
    requires 0 <= k <= s.len(), b == blen(s.take(k)),
    ensures #![trigger cidx(s, b), blen(s.take(k))] cidx(s, b) == k
{ lemma_cidx(s, k); }
pub broadcast proof fn bl_bnd(s: Seq<char>, b: int, k: int)
    requires 0 <= k <= s.len(), b == blen(s.take(k)),
    ensures #![trigger is_bnd(s, b), blen(s.take(k))] is_bnd(s, b)
{}
pub broadcast proof fn bl_end(s: Seq<char>)
    ensures #![trigger cidx(s, blen(s) as int)] #![trigger is_bnd(s, blen(s) as int)] cidx(s, blen(s) as int) == s.len(), is_bnd(s, blen(s) as int), blen(s.take(s.len() as int)) == blen(s)
{ lemma_blen_whole(s); }
pub broadcast proof fn bl_zero(s: Seq<char>)
    ensures #![trigger cidx(s, 0)] #![trigger is_bnd(s, 0)] cidx(s, 0) == 0, is_bnd(s, 0), blen(s.take(0)) == 0
{ lemma_blen_whole(s); }
pub broadcast proof fn bl_sub(s: Seq<char>, x: int, e: int, y: int)
    requires 0 <= x <= e <= s.len(), 0 <= y <= e - x,
    ensures blen(s.take(x)) + blen(#[trigger] s.subrange(x, e).take(y)) == blen(s.take(x + y))
    decreases y
{
    reveal(blen);
    if y > 0 {
        bl_sub(s, x, e, y - 1);
        assert(s.subrange(x, e).take(y).drop_last() =~= s.subrange(x, e).take(y - 1));
        assert(s.take(x + y).drop_last() =~= s.take(x + y - 1));
        assert(s.subrange(x, e).take(y).last() == s[x + y - 1]);
        assert(s.take(x + y).last() == s[x + y - 1]);
    } else { assert(s.subrange(x, e).take(0) =~= Seq::<char>::empty()); }
}
pub broadcast proof fn bl_next(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures #![trigger blen(s.take(k)), s[k]] blen(s.take(k + 1)) == blen(s.take(k)) + cw(s[k])
{ reveal(blen); assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub broadcast proof fn bl_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures #![trigger blen(s.take(i)), blen(s.take(j))] blen(s.take(i)) + (j - i) <= blen(s.take(j)) <= blen(s.take(i)) + 4 * (j - i)
{ lemma_blen_take(s, i, j); }
pub broadcast proof fn bl_first(s: Seq<char>, c: char)
    ensures 0 <= #[trigger] first_of(s, c) <= s.len(), first_of(s, c) < s.len() ==> s[first_of(s, c)] == c
{ lemma_first_of(s, c); }
pub broadcast proof fn bl_all(s: Seq<char>, n: int)
    requires n == s.len(),
    ensures #[trigger] s.subrange(0, n) == s
{ assert(s.subrange(0, n) =~= s); }
pub broadcast proof fn bl_filter(t: Seq<char>, p: spec_fn((usize, char)) -> bool)
    ensures (forall|x: (usize, char)| #[trigger] p(x) == (x.1 == '/')) ==> ({
        let f = #[trigger] char_idx(t).filter(p);
        let a = first_of(t, '/');
        let b = a + 1 + first_of(t.skip(a + 1), '/');
        &&& a >= t.len() ==> f.len() == 0
        &&& a < t.len() ==> f.len() > 0 && f[0].0 == blen(t.take(a)) as usize
        &&& a < t.len() && b >= t.len() ==> f.len() == 1
        &&& b < t.len() ==> f.len() > 1 && f[1].0 == blen(t.take(b)) as usize
    })
{
    if forall|x: (usize, char)| #[trigger] p(x) == (x.1 == '/') { lemma_filter_idx(t, t.len() as int, p); assert(char_idx(t).take(t.len() as int) =~= char_idx(t)); }
}
/// a byte length of a prefix or of a suffix is a place between two characters
pub broadcast proof fn bl_prefix(b: Seq<char>, a: Seq<char>)
    ensures #![trigger is_prefix(b, a), blen(b)] is_prefix(b, a) ==> is_bnd(a, blen(b) as int) && cidx(a, blen(b) as int) == b.len() && blen(b) <= blen(a)
{ if is_prefix(b, a) { assert(a.take(b.len() as int) =~= b); lemma_cidx(a, b.len() as int); lemma_blen_take(a, b.len() as int, a.len() as int); lemma_blen_whole(a); } }
pub broadcast proof fn bl_suffix(b: Seq<char>, a: Seq<char>)
    ensures #![trigger is_suffix(b, a), blen(b)] is_suffix(b, a) ==> is_bnd(a, blen(a) - blen(b)) && cidx(a, blen(a) - blen(b)) == a.len() - b.len() && blen(b) <= blen(a)
{
    if is_suffix(b, a) {
        let n = a.len() - b.len();
        assert(a.skip(n) =~= b);
        bl_sub(a, n, a.len() as int, b.len() as int);
        assert(a.subrange(n, a.len() as int).take(b.len() as int) =~= b);
        assert(a.take(a.len() as int) =~= a);
        lemma_cidx(a, n);
    }
}
pub proof fn bl_first_char(s: Seq<char>) ensures s.len() > 0 ==> blen(s.take(1)) == cw(s[0])
{ if s.len() > 0 { reveal_with_fuel(blen, 3); assert(s.take(1).drop_last() =~= Seq::<char>::empty()); } }
pub proof fn bl_last_char(s: Seq<char>) ensures s.len() > 0 ==> blen(s.take(s.len() - 1)) + cw(s.last()) == blen(s)
{ if s.len() > 0 { reveal(blen); assert(s.drop_last() =~= s.take(s.len() - 1)); } }
} // mod lem
