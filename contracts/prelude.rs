// ---- trusted prelude: specifications of the standard library and of the dependencies ----
// Every item marked external_body or uninterp here is part of the trusted base (listed in the evidence).

// ---------- characters, strings, byte offsets ----------
/// strings (paths, requests, file contents) are shorter than this many bytes
pub spec const MAXS: int = 0x3fff_ff00;
pub open spec fn cw(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// UTF-8 length
#[verifier::opaque] pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + cw(s.last()) } }
pub open spec fn is_bnd(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= s.len() && blen(#[trigger] s.take(k)) == b }
pub open spec fn cidx(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && blen(#[trigger] s.take(k)) == b }
pub open spec fn bslice(s: Seq<char>, lo: int, hi: int) -> Seq<char> { s.subrange(cidx(s, lo), cidx(s, hi)) }
pub open spec fn is_prefix(a: Seq<char>, s: Seq<char>) -> bool { a.len() <= s.len() && s.take(a.len() as int) =~= a }
pub open spec fn is_suffix(a: Seq<char>, s: Seq<char>) -> bool { a.len() <= s.len() && s.skip(s.len() - a.len()) =~= a }
pub open spec fn occurs_at(a: Seq<char>, s: Seq<char>, k: int) -> bool { 0 <= k && k + a.len() <= s.len() && s.subrange(k, k + a.len()) =~= a }
pub open spec fn occurs(a: Seq<char>, s: Seq<char>) -> bool { exists|k: int| #[trigger] occurs_at(a, s, k) }
/// index of the first c in s, or s.len()
#[verifier::opaque] pub open spec fn first_of(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + first_of(s.skip(1), c) } }
pub open spec fn split_c(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] } else {
        let p = split_c(s.drop_last(), c);
        if s.last() == c { p.push(Seq::<char>::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub open spec fn replace_c(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else { let p = replace_c(s.drop_last(), c, t); if s.last() == c { p + t } else { p.push(s.last()) } }
}
/// lexicographic by code point, which is the order of the UTF-8 bytes
#[verifier::opaque] pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] == b[0] { str_lt(a.skip(1), b.skip(1)) } else { (a[0] as u32) < (b[0] as u32) }
}
proof fn lem_lt_irr(a: Seq<char>) ensures !str_lt(a, a) decreases a.len() { reveal(str_lt); if a.len() > 0 { lem_lt_irr(a.skip(1)); } }
proof fn lem_lt_tot(a: Seq<char>, b: Seq<char>) ensures a != b ==> str_lt(a, b) || str_lt(b, a), !(str_lt(a, b) && str_lt(b, a)) decreases a.len() {
    reveal(str_lt);
    if a.len() > 0 && b.len() > 0 {
        lem_lt_tot(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.skip(1)[i - 1] == a[i]); assert(b.skip(1)[i - 1] == b[i]); } } assert(a.skip(1).len() == b.skip(1).len()); assert(a =~= b); }
    } else { if a.len() == 0 && b.len() == 0 { assert(a =~= b); } }
}
proof fn lem_lt_tra(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures str_lt(a, b) && str_lt(b, c) ==> str_lt(a, c) decreases a.len() {
    reveal(str_lt);
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { lem_lt_tra(a.skip(1), b.skip(1), c.skip(1)); }
}
/// a strict total order
pub proof fn ax_str_lt(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures !str_lt(a, a), str_lt(a, b) ==> !str_lt(b, a), a != b ==> str_lt(a, b) || str_lt(b, a), str_lt(a, b) && str_lt(b, c) ==> str_lt(a, c)
{ lem_lt_irr(a); lem_lt_tot(a, b); lem_lt_tra(a, b, c); }

pub open spec fn str_ord(a: Seq<char>, b: Seq<char>) -> Ordering { if a == b { Ordering::Equal } else if str_lt(a, b) { Ordering::Less } else { Ordering::Greater } }

#[verifier::external_body] pub fn vx_unreachable() -> (r: !) requires false { unreachable!() }
#[verifier::external_body] pub fn vx_clone<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
#[verifier::external_body] pub fn vx_eq<T: PartialEq>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { a == b }
pub fn vx_band(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { if a { b } else { false } }
#[verifier::external_body] pub fn usize_cmp(a: usize, b: usize) -> (r: Ordering) ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }) { a.cmp(&b) }
pub fn i32_abs(a: i32) -> (r: i32) requires a > i32::MIN, ensures r == (if a < 0 { -a } else { a as int }) { if a < 0 { -a } else { a } }
/// names an index, for the prover
pub open spec fn vx_idx(i: int) -> bool { true }
pub fn vx_vec_new<T>() -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::new() }
#[verifier::external_body] pub fn vx_vec_repeat<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { vec![x; n] }

#[verifier::external_body] pub fn string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] pub fn string_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body] pub fn string_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] pub fn s_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] pub fn s_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { a + &b }
#[verifier::external_body] pub fn s_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), r == (a@ =~= b@) { a == b }
#[verifier::external_body] pub fn opt_string_eq(a: &Option<String>, b: &Option<String>) -> (r: bool) ensures r == (match (*a, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false }) { a == b }
#[verifier::external_body] pub fn s_cmp(a: &str, b: &str) -> (r: Ordering) ensures r == str_ord(a@, b@) { a.cmp(b) }
#[verifier::external_body] pub fn s_len(a: &str) -> (r: usize) ensures r == blen(a@), r < MAXS, a@.len() <= r <= 4 * a@.len() { a.len() }
#[verifier::external_body] pub fn s_is_empty(a: &str) -> (r: bool) ensures r == (a@.len() == 0) { a.is_empty() }
#[verifier::external_body] pub fn s_chars(a: &str) -> (r: VIter<char>) ensures r@ == a@, a@.len() <= blen(a@) < MAXS { VIter { v: a.chars().collect() } }
pub open spec fn char_idx(a: Seq<char>) -> Seq<(usize, char)> { Seq::new(a.len(), |i: int| (blen(a.take(i)) as usize, a[i])) }
#[verifier::external_body] pub fn s_char_indices(a: &str) -> (r: VIter<(usize, char)>) ensures r@ == char_idx(a@), a@.len() <= blen(a@) < MAXS, forall|i: int| 0 <= i < a@.len() ==> (#[trigger] blen(a@.take(i))) <= blen(a@) { VIter { v: a.char_indices().collect() } }
#[verifier::external_body] fn s_starts_with_c0(a: &str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@[0] == c) { a.starts_with(c) }
#[verifier::external_body] fn s_ends_with_c0(a: &str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@.last() == c) { a.ends_with(c) }
pub fn s_starts_with_c(a: &str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@[0] == c), r ==> blen(a@.take(1)) == cw(c) { proof { super::sp::lem::bl_first_char(a@); } s_starts_with_c0(a, c) }
pub fn s_ends_with_c(a: &str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@.last() == c), r ==> blen(a@.take(a@.len() - 1)) + cw(c) == blen(a@) { proof { super::sp::lem::bl_last_char(a@); } s_ends_with_c0(a, c) }
#[verifier::external_body] pub fn s_contains_c(a: &str, c: char) -> (r: bool) ensures r == a@.contains(c) { a.contains(c) }
#[verifier::external_body] pub fn s_starts_with_s(a: &str, b: &str) -> (r: bool) ensures r == is_prefix(b@, a@) { a.starts_with(b) }
#[verifier::external_body] pub fn s_ends_with_s(a: &str, b: &str) -> (r: bool) ensures r == is_suffix(b@, a@) { a.ends_with(b) }
#[verifier::external_body] pub fn s_contains_s(a: &str, b: &str) -> (r: bool) ensures r == occurs(b@, a@) { a.contains(b) }
#[verifier::external_body] pub fn s_find_c(a: &str, c: char) -> (r: Option<usize>) ensures ({ let k = first_of(a@, c); &&& r == (if k < a@.len() { Some(blen(a@.take(k)) as usize) } else { None }) &&& 0 <= k <= a@.len() &&& blen(a@.take(k)) <= blen(a@) < MAXS &&& k < a@.len() ==> blen(a@.take(k + 1)) == blen(a@.take(k)) + cw(c) && blen(a@.take(k + 1)) <= blen(a@) }) { a.find(c) }
#[verifier::external_body] pub fn s_strip_prefix_s<'a>(a: &'a str, b: &str) -> (r: Option<&'a str>) ensures r.is_some() == is_prefix(b@, a@), r.is_some() ==> r.unwrap()@ == a@.skip(b@.len() as int) { a.strip_prefix(b) }
#[verifier::external_body] pub fn s_strip_prefix_c<'a>(a: &'a str, c: char) -> (r: Option<&'a str>) ensures r.is_some() == (a@.len() > 0 && a@[0] == c), r.is_some() ==> r.unwrap()@ == a@.skip(1) { a.strip_prefix(c) }
#[verifier::external_body] pub fn s_strip_suffix_s<'a>(a: &'a str, b: &str) -> (r: Option<&'a str>) ensures r.is_some() == is_suffix(b@, a@), r.is_some() ==> r.unwrap()@ == a@.take(a@.len() - b@.len()) { a.strip_suffix(b) }
#[verifier::external_body] pub fn s_strip_suffix_c<'a>(a: &'a str, c: char) -> (r: Option<&'a str>) ensures r.is_some() == (a@.len() > 0 && a@.last() == c), r.is_some() ==> r.unwrap()@ == a@.drop_last() { a.strip_suffix(c) }
#[verifier::external_body] pub fn s_split_once_c<'a>(a: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>) ensures ({ let k = first_of(a@, c); &&& r.is_some() == (k < a@.len()) &&& 0 <= k <= a@.len() &&& r.is_some() ==> r.unwrap().0@ == a@.take(k) && r.unwrap().1@ == a@.skip(k + 1) }) { a.split_once(c) }
#[verifier::external_body] pub fn opt_get_or_insert<T>(o: &mut Option<T>, v: T) -> (r: &mut T) ensures *r == (match *old(o) { Some(x) => x, None => v }), *final(o) == Some(*final(r)) { o.get_or_insert(v) }
#[verifier::external_body] pub fn s_split_c<'a>(a: &'a str, c: char) -> (r: VIter<&'a str>) ensures r@.len() == split_c(a@, c).len(), r@.len() < MAXS, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_c(a@, c)[i] { VIter { v: a.split(c).collect() } }
#[verifier::external_body] pub fn s_replace_c(a: &str, c: char, t: &str) -> (r: String) ensures r@ == replace_c(a@, c, t@) { a.replace(c, t) }
#[verifier::external_body] pub fn s_replacen_s(a: &str, f: &str, t: &str, n: usize) -> (r: String) ensures n == 1 && is_prefix(f@, a@) ==> r@ == t@ + a@.skip(f@.len() as int) { a.replacen(f, t, n) }
/// &a[lo..hi]: both ends on character boundaries, in order
#[verifier::external_body] pub fn s_slice<'a>(a: &'a str, lo: usize, hi: usize) -> (r: &'a str)
    requires lo <= hi, is_bnd(a@, lo as int), is_bnd(a@, hi as int),
    ensures r@ == bslice(a@, lo as int, hi as int) { &a[lo..hi] }

pub trait ToDisp { spec fn disp(&self) -> Seq<char>; fn to_disp(&self) -> (r: String) ensures r@ == self.disp(); }
impl ToDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_disp(&self) -> (r: String) { self.to_string() } }
impl ToDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_disp(&self) -> (r: String) { self.to_string() } }
impl ToDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn to_disp(&self) -> (r: String) { self.to_string() } }
pub struct VxDisp { pub s: String }
impl VxDisp { #[verifier::external_body] pub fn to_disp(&self) -> (r: String) ensures r@ == self.s@ { self.s.to_string() } }

// ---------- iterators over finite sequences ----------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { pub v: Vec<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
/// the elements behind references
#[verifier::opaque] pub open spec fn deref_seq<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn lem_deref_skip<T>(s: Seq<&T>, n: int) requires 0 <= n <= s.len(), ensures #[trigger] deref_seq(s.skip(n)) == deref_seq(s).skip(n) { reveal(deref_seq); assert(deref_seq(s.skip(n)) =~= deref_seq(s).skip(n)); }
pub broadcast proof fn lem_deref_take<T>(s: Seq<&T>, n: int) requires 0 <= n <= s.len(), ensures #[trigger] deref_seq(s.take(n)) == deref_seq(s).take(n) { reveal(deref_seq); assert(deref_seq(s.take(n)) =~= deref_seq(s).take(n)); }
pub broadcast proof fn lem_deref_empty<T>() ensures #[trigger] deref_seq(Seq::<&T>::empty()) == Seq::<T>::empty() { reveal(deref_seq); assert(deref_seq(Seq::<&T>::empty()) =~= Seq::<T>::empty()); }
pub trait FromViter<T>: Sized { spec fn from_v(s: Seq<T>, r: Self) -> bool; fn vx_from(v: Vec<T>) -> Self; }
impl FromViter<char> for String { open spec fn from_v(s: Seq<char>, r: String) -> bool { r@ =~= s } #[verifier::external_body] fn vx_from(v: Vec<char>) -> Self { v.into_iter().collect() } }
impl<'a> FromViter<&'a char> for String { open spec fn from_v(s: Seq<&'a char>, r: String) -> bool { r@ == deref_seq(s) } #[verifier::external_body] fn vx_from(v: Vec<&'a char>) -> Self { v.into_iter().collect() } }
impl<T> FromViter<T> for Vec<T> { open spec fn from_v(s: Seq<T>, r: Vec<T>) -> bool { r@ =~= s } #[verifier::external_body] fn vx_from(v: Vec<T>) -> Self { v } }
impl<T: Clone> VIter<T> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self@.len() { self.v.into_iter().count() }
    #[verifier::external_body] pub fn at(&self, i: usize) -> (r: T) requires i < self@.len(), ensures r == self@[i as int] { self.v[i].clone() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: VIter<T>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::<T>::empty() }) { VIter { v: self.v.into_iter().skip(n).collect() } }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: VIter<T>) ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ }) { VIter { v: self.v.into_iter().take(n).collect() } }
    #[verifier::external_body] pub fn rev(self) -> (r: VIter<T>) ensures r@ == self@.reverse() { VIter { v: self.v.into_iter().rev().collect() } }
    #[verifier::external_body] pub fn enumerate(self) -> (r: VIter<(usize, T)>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self@[i] { VIter { v: self.v.into_iter().enumerate().collect() } }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>) ensures r == (if old(self)@.len() > 0 { Some(old(self)@[0]) } else { None }), final(self)@ == (if old(self)@.len() > 0 { old(self)@.skip(1) } else { old(self)@ }) { if self.v.is_empty() { None } else { Some(self.v.remove(0)) } }
    #[verifier::external_body] pub fn collect<B: FromViter<T>>(self) -> (r: B) ensures B::from_v(self@, r) { B::vx_from(self.v) }
    #[verifier::external_body] pub fn it_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < r@.len() ==> f.ensures((self@[i],), r@[i]) { VIter { v: self.v.into_iter().map(f).collect() } }
    #[verifier::external_body] pub fn it_any<F: Fn(T) -> bool>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            forall|x: T, b: bool| f.ensures((x,), b) ==> b == p(x),
        ensures r == (exists|i: int| 0 <= i < self@.len() && p(#[trigger] self@[i])) { self.v.into_iter().any(f) }
    #[verifier::external_body] pub fn it_filter<F: Fn(&T) -> bool>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
            forall|x: T, b: bool| f.ensures((&x,), b) ==> b == p(x),
        ensures r@ == self@.filter(p) { VIter { v: self.v.into_iter().filter(f).collect() } }
}
impl<'a> VIter<&'a str> { #[verifier::external_body] pub fn map_to_string(self) -> (r: VIter<String>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@[i]@ { VIter { v: self.v.into_iter().map(|x| x.to_string()).collect() } } }
impl<'a> VIter<&'a String> { #[verifier::external_body] pub fn map_to_string(self) -> (r: VIter<String>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@[i]@ { VIter { v: self.v.into_iter().map(|x| x.to_string()).collect() } } }
#[verifier::external_body] pub fn vec_iter<'a, T>(v: &'a Vec<T>) -> (r: VIter<&'a T>) ensures deref_seq(r@) == v@, r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> *r@[i] == v@[i] { VIter { v: v.iter().collect() } }
#[verifier::external_body] pub fn slice_iter<'a, T>(v: &'a [T]) -> (r: VIter<&'a T>) ensures deref_seq(r@) == v@, r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> *r@[i] == v@[i] { VIter { v: v.iter().collect() } }
#[verifier::external_body] pub fn vec_into_viter<T>(v: Vec<T>) -> (r: VIter<T>) ensures r@ == v@ { VIter { v: v.into_iter().collect() } }
pub struct VxRange { pub start: usize, pub end: usize }
#[verifier::external_body] pub fn range_viter(r: std::ops::Range<usize>) -> (v: VIter<usize>) ensures v@.len() == (if r.start <= r.end { r.end - r.start } else { 0 }), forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == r.start + i { VIter { v: r.collect() } }
#[verifier::external_body] pub fn vec_first<'a, T>(v: &'a Vec<T>) -> (r: Option<&'a T>) ensures r == (if v@.len() > 0 { Some(&v@[0]) } else { None }) { v.first() }
#[verifier::external_body] pub fn vec_last<'a, T>(v: &'a Vec<T>) -> (r: Option<&'a T>) ensures r == (if v@.len() > 0 { Some(&v@.last()) } else { None }) { v.last() }
#[verifier::external_body] pub fn vec_get<'a, T>(v: &'a Vec<T>, i: usize) -> (r: Option<&'a T>) ensures r == (if i < v@.len() { Some(&v@[i as int]) } else { None }) { v.get(i) }
#[verifier::external_body] pub fn vec_slice<'a, T>(v: &'a Vec<T>, lo: usize, hi: usize) -> (r: &'a [T]) requires lo <= hi <= v@.len(), ensures r@ == v@.subrange(lo as int, hi as int) { &v[lo..hi] }
#[verifier::external_body] pub fn slice_slice<'a, T>(v: &'a [T], lo: usize, hi: usize) -> (r: &'a [T]) requires lo <= hi <= v@.len(), ensures r@ == v@.subrange(lo as int, hi as int) { &v[lo..hi] }
/// the positions 0..n in another order
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool { p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]) && (forall|k: int| 0 <= k < n ==> p.contains(k)) }
/// sorting: the comparison has to be a total order (`le`: not greater); the elements in another order, in which no one is greater than a later one
#[verifier::external_body] pub fn vec_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F, Ghost(le): Ghost<spec_fn(T, T) -> bool>)
    requires forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> f.requires((&#[trigger] old(v)@[i], &#[trigger] old(v)@[j])),
        forall|a: T, b: T, o: Ordering| f.ensures((&a, &b), o) ==> (o != Ordering::Greater) == le(a, b) && (o == Ordering::Less) == !le(b, a),
        forall|a: T, b: T| #[trigger] le(a, b) || le(b, a),
        forall|a: T, b: T, c: T| #[trigger] le(a, b) && #[trigger] le(b, c) ==> le(a, c),
    ensures final(v)@.len() == old(v)@.len(),
        exists|p: Seq<int>| #[trigger] is_perm(p, old(v)@.len() as int) && forall|i: int| 0 <= i < final(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[p[i]],
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> le(#[trigger] final(v)@[i], #[trigger] final(v)@[j]) { v.sort_by(f) }

/// a static table of strings
#[verifier::external_body] #[verifier::external_derive] #[derive(Clone, Copy)] pub struct StrTable { pub v: &'static [&'static str] }
impl StrTable {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn ent(&self, i: int) -> Seq<char>;
    pub uninterp spec fn mem(&self, s: Seq<char>) -> bool;
    #[verifier::external_body] pub fn idx(&self, i: usize) -> (r: &'static str) requires i < self.n(), ensures r@ == self.ent(i as int), self.mem(r@) { self.v[i] }
}
#[verifier::external_body] pub fn strs_contains(t: StrTable, s: &str) -> (r: bool) ensures r == t.mem(s@) { t.v.contains(&s) }

// ---------- maps and sets ----------
#[verifier::external_derive]
#[derive(Clone)]
pub struct IndexMap<K, V> { k: Vec<(K, V)> }
pub type Map_<K, V> = IndexMap<K, V>;
impl<V> IndexMap<String, V> {
    /// the entries in order
    pub closed spec fn e(&self) -> Seq<(Seq<char>, V)> { Seq::new(self.k@.len(), |i: int| (self.k@[i].0@, self.k@[i].1)) }
    /// the same as a map
    pub closed spec fn m(&self) -> Map<Seq<char>, V> { im_of(self.e()) }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, V>::empty(), r.e() == Seq::<(Seq<char>, V)>::empty() { IndexMap { k: vec![] } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.e().len() { self.k.len() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.e().len() == 0) { self.k.is_empty() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures r == (if self.m().dom().contains(k@) { Some(&self.m()[k@]) } else { None }) { self.k.iter().find(|x| x.0 == k).map(|x| &x.1) }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self.m().dom().contains(k@) { self.k.iter().any(|x| x.0 == k) }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
      ensures r.is_some() == old(self).m().dom().contains(k@),
         r.is_none() ==> final(self).m() == old(self).m(),
         r.is_some() ==> (*r.unwrap() == old(self).m()[k@] && final(self).m() == old(self).m().insert(k@, *final(r.unwrap()))) { self.k.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1) }
    #[verifier::external_body] pub fn entry_or_insert(&mut self, k: String, v: V) -> (r: &mut V)
      ensures ({ let m = if old(self).m().dom().contains(k@) { old(self).m() } else { old(self).m().insert(k@, v) }; *r == m[k@] && final(self).m() == m.insert(k@, *final(r)) }) { let i = match self.k.iter().position(|x| x.0 == k) { Some(i) => i, None => { self.k.push((k, v)); self.k.len() - 1 } }; &mut self.k[i].1 }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
      ensures final(self).m() == old(self).m().insert(k@, v),
        !old(self).m().dom().contains(k@) ==> final(self).e() == old(self).e().push((k@, v)),
        forall|i: int| 0 <= i < old(self).e().len() && (#[trigger] old(self).e()[i]).0 == k@ ==> final(self).e() == old(self).e().update(i, (k@, v)) { match self.k.iter_mut().find(|x| x.0 == k) { Some(x) => Some(std::mem::replace(&mut x.1, v)), None => { self.k.push((k, v)); None } } }
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: VIter<(&'a String, &'a V)>)
      ensures r@.len() == self.e().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.e()[i].0 && *r@[i].1 == self.e()[i].1 { VIter { v: self.k.iter().map(|x| (&x.0, &x.1)).collect() } }
    #[verifier::external_body] pub fn into_viter(self) -> (r: VIter<(String, V)>)
      ensures r@.len() == self.e().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.e()[i].0 && r@[i].1 == self.e()[i].1 { VIter { v: self.k } }
    #[verifier::external_body] pub fn keys<'a>(&'a self) -> (r: VIter<&'a String>)
      ensures r@.len() == self.e().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.e()[i].0 { VIter { v: self.k.iter().map(|x| &x.0).collect() } }
}
pub open spec fn im_of<V>(e: Seq<(Seq<char>, V)>) -> Map<Seq<char>, V> decreases e.len() {
    if e.len() == 0 { Map::empty() } else { im_of(e.drop_last()).insert(e.last().0, e.last().1) }
}
proof fn lem_im_of<V>(e: Seq<(Seq<char>, V)>, k: Seq<char>)
    ensures im_of(e).dom().contains(k) <==> (exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k),
        im_of(e).dom().contains(k) ==> (exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k && e[i].1 == im_of(e)[k])
    decreases e.len()
{
    if e.len() > 0 {
        let d = e.drop_last(); let n = e.len() - 1;
        lem_im_of(d, k);
        assert(e[n] == e.last());
        assert forall|i: int| 0 <= i < n implies d[i] == e[i] by {}
        if e.last().0 == k { assert(e[n].0 == k && e[n].1 == im_of(e)[k]); }
        else {
            if im_of(d).dom().contains(k) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k && d[i].1 == im_of(d)[k]; assert(e[i].0 == k && e[i].1 == im_of(e)[k]); }
            else { assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).0 != k by { if i < n { assert(d[i] == e[i]); } } }
        }
    }
}
/// keys are distinct
pub axiom fn ax_im_nodup<V>(x: IndexMap<String, V>)
    ensures forall|i: int, j: int| 0 <= i < j < x.e().len() ==> (#[trigger] x.e()[i]).0 != (#[trigger] x.e()[j]).0;
/// a value is smaller than the map which holds it
pub proof fn ax_im_dec<V>(x: IndexMap<String, V>, i: int)
    requires 0 <= i < x.e().len(),
    ensures decreases_to!(x => x.e()[i].1)
{ assert(decreases_to!(x => x.k)); assert(decreases_to!(x.k => x.k@[i])); assert(decreases_to!(x.k@[i] => x.k@[i].1)); }
/// entries and map agree
pub broadcast proof fn ax_im_entries<V>(x: IndexMap<String, V>, i: int)
    requires 0 <= i < x.e().len(),
    ensures x.m().dom().contains((#[trigger] x.e()[i]).0), x.m()[x.e()[i].0] == x.e()[i].1
{
    ax_im_nodup(x);
    let e = x.e(); let k = e[i].0;
    lem_im_of(e, k);
    assert(e[i].0 == k);
    let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == k && e[j].1 == im_of(e)[k];
    assert(j == i) by { if i < j { assert(e[i].0 != e[j].0); } else if j < i { assert(e[j].0 != e[i].0); } }
}
pub broadcast proof fn ax_im_dom<V>(x: IndexMap<String, V>, k: Seq<char>)
    ensures #[trigger] x.m().dom().contains(k) ==> exists|i: int| 0 <= i < x.e().len() && (#[trigger] x.e()[i]).0 == k && x.e()[i].1 == x.m()[k]
{ lem_im_of(x.e(), k); }
pub proof fn ax_im_dec2<V>(x: IndexMap<String, V>, k: Seq<char>)
    requires x.m().dom().contains(k),
    ensures decreases_to!(x => x.m()[k])
{ ax_im_dom(x, k); let i = choose|i: int| 0 <= i < x.e().len() && (#[trigger] x.e()[i]).0 == k && x.e()[i].1 == x.m()[k]; ax_im_dec(x, i); }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::external_derive]
#[derive(Clone)]
pub struct HashSet<K> { k: Vec<K> }
impl View for HashSet<String> { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl HashSet<String> {
    #[verifier::external_body] pub fn contains(&self, s: &str) -> (r: bool) ensures r == self@.contains(s@) { self.k.iter().any(|x| x == s) }
    #[verifier::external_body] pub fn from_iter(v: VIter<String>) -> (r: Self) ensures forall|s: Seq<char>| #[trigger] r@.contains(s) == (exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i])@ == s) { HashSet { k: v.v } }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
#[verifier::external_derive]
#[derive(Clone)]
pub struct HashMap<K, V> { k: Vec<(K, V)> }
impl<V> View for HashMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> HashMap<String, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { HashMap { k: vec![] } }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { match self.k.iter_mut().find(|x| x.0 == k) { Some(x) => Some(std::mem::replace(&mut x.1, v)), None => { self.k.push((k, v)); None } } }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None }) { self.k.iter().find(|x| x.0 == k).map(|x| &x.1) }
    /// every entry once, in any order
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: VIter<(&'a String, &'a V)>)
      ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0@) && self@[r@[i].0@] == *r@[i].1,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
        forall|k: Seq<char>| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k { VIter { v: self.k.iter().rev().map(|x| (&x.0, &x.1)).collect() } }
}

// ---------- concurrent maps: only what holds whatever other threads do ----------
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct DashMap<K, V> { m: std::sync::Mutex<Vec<(K, V)>> }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct DRef<V> { v: V }
pub trait Keyed { spec fn key(&self) -> Seq<char>; spec fn same(a: Seq<char>, b: Seq<char>) -> bool; fn vx_same(&self, o: &Self) -> bool; }
impl Keyed for String { open spec fn key(&self) -> Seq<char> { self@ } open spec fn same(a: Seq<char>, b: Seq<char>) -> bool { a == b } #[verifier::external_body] fn vx_same(&self, o: &Self) -> bool { self == o } }
impl Keyed for PathBuf { open spec fn key(&self) -> Seq<char> { self@ } open spec fn same(a: Seq<char>, b: Seq<char>) -> bool { p_eq(a, b) } #[verifier::external_body] fn vx_same(&self, o: &Self) -> bool { vx_p(self) == vx_p(o) } }
impl<V> DRef<V> { pub uninterp spec fn val(&self) -> V; #[verifier::external_body] pub fn vx_ref(&self) -> (r: &V) ensures *r == self.val() { &self.v } }
impl<V> std::ops::Deref for DRef<V> { type Target = V; #[verifier::external_body] fn deref(&self) -> (r: &V) ensures *r == self.val() { &self.v } }
impl<K, V> Default for DashMap<K, V> { #[verifier::external_body] fn default() -> (r: Self) { DashMap { m: std::sync::Mutex::new(vec![]) } } }
impl<K: Keyed, V: Clone> DashMap<K, V> {
    /// what every entry of this map satisfies: checked at each insertion, so that it holds whenever an
    /// entry is read, whichever thread (or resolver sharing the map) inserted it
    pub uninterp spec fn ok(&self, k: Seq<char>, v: V) -> bool;
    /// an operation on this map has inserted, removed, returned an entry, found none
    pub uninterp spec fn put(&self, k: Seq<char>, v: V) -> bool;
    pub uninterp spec fn del(&self, k: Seq<char>) -> bool;
    pub uninterp spec fn got(&self, k: Seq<char>, v: V) -> bool;
    pub uninterp spec fn none(&self, k: Seq<char>) -> bool;
    #[verifier::external_body] pub fn new() -> (r: Self) { DashMap { m: std::sync::Mutex::new(vec![]) } }
    /// keys are compared as keys: paths component by component
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<DRef<V>>)
        ensures r.is_none() ==> self.none(k.key()), r.is_some() ==> self.got(k.key(), r.unwrap().val()) && exists|j: Seq<char>| K::same(j, k.key()) && #[trigger] self.ok(j, r.unwrap().val()) { self.m.lock().unwrap().iter().find(|x| x.0.vx_same(k)).map(|x| DRef { v: x.1.clone() }) }
    #[verifier::external_body] pub fn insert(&self, k: K, v: V) -> (r: Option<V>) requires self.ok(k.key(), v), ensures self.put(k.key(), v) { let mut m = self.m.lock().unwrap(); match m.iter_mut().find(|x| x.0.vx_same(&k)) { Some(x) => Some(std::mem::replace(&mut x.1, v)), None => { m.push((k, v)); None } } }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) { self.m.lock().unwrap().iter().any(|x| x.0.vx_same(k)) }
    #[verifier::external_body] pub fn remove(&self, k: &K) -> (r: Option<(K, V)>) ensures self.del(k.key()) { let mut m = self.m.lock().unwrap(); let p = m.iter().position(|x| x.0.vx_same(k)); p.map(|p| m.remove(p)) }
}

// ---------- JSON ----------
#[verifier::external_body] #[verifier::external_derive] #[derive(Clone)] pub struct Number { pub t: String }
#[verifier::external_derive] #[derive(Clone)] pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(IndexMap<String, Value>) }
pub open spec fn vget(v: Value, k: Seq<char>) -> Option<Value> { match v { Value::Object(m) => if m.m().dom().contains(k) { Some(m.m()[k]) } else { None }, _ => None } }
pub open spec fn vstr(v: Value) -> Option<Seq<char>> { match v { Value::String(s) => Some(s@), _ => None } }
pub uninterp spec fn json_text(v: Value) -> Seq<char>;
impl Value {
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures r.is_some() == vget(*self, k@).is_some(), r.is_some() ==> *r.unwrap() == vget(*self, k@).unwrap() { match self { Value::Object(m) => m.get(k), _ => None } }
    pub fn is_null(&self) -> (r: bool) ensures r == (*self is Null) { match self { Value::Null => true, _ => false } }
    pub fn is_string(&self) -> (r: bool) ensures r == (*self is String) { match self { Value::String(_) => true, _ => false } }
    pub fn is_object(&self) -> (r: bool) ensures r == (*self is Object) { match self { Value::Object(_) => true, _ => false } }
    pub fn is_array(&self) -> (r: bool) ensures r == (*self is Array) { match self { Value::Array(_) => true, _ => false } }
    pub fn is_boolean(&self) -> (r: bool) ensures r == (*self is Bool) { match self { Value::Bool(_) => true, _ => false } }
    pub fn as_bool(&self) -> (r: Option<bool>) ensures r == (match *self { Value::Bool(b) => Some(b), _ => None }) { match self { Value::Bool(b) => Some(*b), _ => None } }
    #[verifier::external_body] pub fn as_str(&self) -> (r: Option<&str>) ensures r.is_some() == (*self is String), r.is_some() ==> r.unwrap()@ == self->String_0@ { match self { Value::String(s) => Some(s.as_str()), _ => None } }
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures r == (match *self { Value::Array(b) => Some(&b), _ => None }) { match self { Value::Array(b) => Some(b), _ => None } }
    pub fn as_object(&self) -> (r: Option<&IndexMap<String, Value>>) ensures r == (match *self { Value::Object(b) => Some(&b), _ => None }) { match self { Value::Object(b) => Some(b), _ => None } }
    #[verifier::external_body] pub fn to_disp(&self) -> (r: String) ensures r@ == json_text(*self) { crate::vx_rt::json_text(&value_to(self)) }
}
#[verifier::external_body] pub fn value_index<'a>(v: &'a Value, k: &str) -> (r: &'a Value) ensures *r == (match vget(*v, k@) { Some(x) => x, None => Value::Null }) { v.get(k).unwrap_or_else(|| Box::leak(Box::new(Value::Null))) }
/// serialisation of a JSON value (string keys only, no I/O) does not fail
#[verifier::external_body] pub fn value_to_string(v: &Value) -> (r: Result<String, SerErr>) ensures r.is_ok(), r.unwrap()@ == json_text(*v) { Ok(crate::vx_rt::json_text(&value_to(v))) }
#[verifier::external_body] #[derive(Debug)] pub struct SerErr { m: String }
impl SerErr { pub uninterp spec fn msg(&self) -> Seq<char>; #[verifier::external_body] pub fn to_disp(&self) -> (r: String) ensures r@ == self.msg() { self.m.clone() } }
/// serde_json: the text of a value determines it, up to what the contracts observe (see spec files)
pub uninterp spec fn json_of(t: Seq<char>) -> Option<Value>;
pub uninterp spec fn jsonc_of(t: Seq<char>) -> Option<Option<Value>>;
pub fn vx_arc_str(a: &Arc<String>) -> (r: &str) ensures r@ == a@ { a.as_str() }
#[verifier::external_body] pub fn value_from_str(s: &str) -> (r: Result<Value, SerErr>) ensures r.is_ok() == json_of(s@).is_some(), r.is_ok() ==> r.unwrap() == json_of(s@).unwrap() { crate::vx_rt::json_parse(s).map(value_of).map_err(|m| SerErr { m }) }
#[verifier::external_body] pub fn jsonc_parse(s: &str) -> (r: Result<Option<Value>, SerErr>) ensures r.is_ok() == jsonc_of(s@).is_some(), r.is_ok() ==> r.unwrap() == jsonc_of(s@).unwrap() { crate::vx_rt::jsonc_parse(s).map(|x| x.map(value_of)).map_err(|m| SerErr { m }) }

#[verifier::external] fn value_of(j: crate::vx_rt::J) -> Value {
    use crate::vx_rt::J;
    match j { J::Null => Value::Null, J::Bool(b) => Value::Bool(b), J::Num(t) => Value::Number(Number { t }), J::Str(s) => Value::String(s), J::Arr(v) => Value::Array(v.into_iter().map(value_of).collect()), J::Obj(v) => Value::Object(IndexMap { k: v.into_iter().map(|(k, v)| (k, value_of(v))).collect() }) }
}
#[verifier::external] fn value_to(v: &Value) -> crate::vx_rt::J {
    use crate::vx_rt::J;
    match v { Value::Null => J::Null, Value::Bool(b) => J::Bool(*b), Value::Number(n) => J::Num(n.t.clone()), Value::String(s) => J::Str(s.clone()), Value::Array(v) => J::Arr(v.iter().map(value_to).collect()), Value::Object(m) => J::Obj(m.k.iter().map(|(k, v)| (k.clone(), value_to(v))).collect()) }
}

// ---------- time ----------
#[verifier::external_body] #[verifier::external_derive] #[derive(Clone, Copy)] pub struct Duration { d: std::time::Duration }
#[verifier::external_body] #[verifier::external_derive] #[derive(Clone, Copy)] pub struct SystemTime { t: std::time::SystemTime }
#[verifier::external_body] #[derive(Debug)] pub struct TimeErr { x: u8 }
impl Duration {
    pub uninterp spec fn ns(&self) -> nat;
    #[verifier::external_body] pub fn from_millis(ms: u64) -> (r: Self) ensures r.ns() == ms * 1_000_000 { Duration { d: std::time::Duration::from_millis(ms) } }
    #[verifier::external_body] pub fn from_secs(s: u64) -> (r: Self) ensures r.ns() == s * 1_000_000_000 { Duration { d: std::time::Duration::from_secs(s) } }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.ns() == 0 { Duration { d: std::time::Duration::default() } }
}
#[verifier::external_body] pub fn dur_ge(a: Duration, b: Duration) -> (r: bool) ensures r == (a.ns() >= b.ns()) { a.d >= b.d }
#[verifier::external_body] pub fn dur_gt(a: Duration, b: Duration) -> (r: bool) ensures r == (a.ns() > b.ns()) { a.d > b.d }
#[verifier::external_body] pub fn dur_le(a: Duration, b: Duration) -> (r: bool) ensures r == (a.ns() <= b.ns()) { a.d <= b.d }
#[verifier::external_body] pub fn dur_lt(a: Duration, b: Duration) -> (r: bool) ensures r == (a.ns() < b.ns()) { a.d < b.d }
impl SystemTime {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body] pub fn duration_since(&self, o: SystemTime) -> (r: Result<Duration, TimeErr>) ensures r.is_ok() == (self.ns() >= o.ns()), r.is_ok() ==> r.unwrap().ns() == self.ns() - o.ns() { self.t.duration_since(o.t).map(|d| Duration { d }).map_err(|_| TimeErr { x: 0 }) }
}

// ---------- paths and files ----------
/// a path as the text it displays as (paths that are not UTF-8 are outside the model)
#[verifier::external_body] #[verifier::external_derive] #[derive(Clone)] pub struct PathBuf { p: String }
#[verifier::external] pub fn vx_p(p: &PathBuf) -> &std::path::Path { std::path::Path::new(&p.p) }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub enum CompV { Root, Cur, Up, Name(Seq<char>) }
// ---------- paths as text ----------
/// `join`: an absolute path replaces, anything else is put behind a separator
#[verifier::opaque] pub open spec fn p_join(p: Seq<char>, s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '/' { s } else if p.len() == 0 || p.last() == '/' { p + s } else { p.push('/') + s } }
/// without separators and '.' at the end
#[verifier::opaque] pub open spec fn p_strip(p: Seq<char>) -> Seq<char> decreases p.len() {
    if p.len() > 1 && (p.last() == '/' || p.last() == '.' && p[p.len() - 2] == '/') { p_strip(p.drop_last()) } else { p }
}
/// the place behind the last separator
#[verifier::opaque] pub open spec fn p_base(p: Seq<char>) -> int decreases p.len() { if p.len() == 0 || p.last() == '/' { p.len() as int } else { p_base(p.drop_last()) } }
/// `parent`
#[verifier::opaque] pub open spec fn p_parent(p: Seq<char>) -> Option<Seq<char>> { let q = p_strip(p); if q.len() == 0 || q.len() == 1 && q[0] == '/' { None } else { Some(p_strip(q.take(p_base(q)))) } }
/// the segment at position i between separators
pub open spec fn seg_comp(s: Seq<char>, i: int) -> Seq<CompV> { if s.len() == 0 { Seq::empty() } else if s.len() == 1 && s[0] == '.' { if i == 0 { seq![CompV::Cur] } else { Seq::empty() } } else if s.len() == 2 && s[0] == '.' && s[1] == '.' { seq![CompV::Up] } else { seq![CompV::Name(s)] } }
#[verifier::opaque] pub open spec fn segs_comps(s: Seq<Seq<char>>) -> Seq<CompV> decreases s.len() { if s.len() == 0 { Seq::empty() } else { segs_comps(s.drop_last()) + seg_comp(s.last(), s.len() - 1) } }
pub open spec fn root_comp(p: Seq<char>) -> Seq<CompV> { if p.len() > 0 && p[0] == '/' { seq![CompV::Root] } else { Seq::empty() } }
/// `components`
#[verifier::opaque] pub open spec fn p_comps(p: Seq<char>) -> Seq<CompV> { root_comp(p) + segs_comps(split_c(p, '/')) }
/// paths are compared component by component
#[verifier::opaque] pub open spec fn p_eq(a: Seq<char>, b: Seq<char>) -> bool { p_comps(a) == p_comps(b) }
pub open spec fn name_ok(n: Seq<char>) -> bool { n.len() > 0 && !(n.len() == 1 && n[0] == '.') && !(n.len() == 2 && n[0] == '.' && n[1] == '.') && !n.contains('/') }

pub broadcast proof fn ax_p_eq(a: Seq<char>) ensures #[trigger] p_eq(a, a) { reveal(p_eq); }
pub proof fn ax_p_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires p_eq(a, b), p_eq(b, c), ensures p_eq(a, c), p_eq(b, a) { reveal(p_eq); }

pub proof fn lem_split_len(s: Seq<char>, c: char) ensures split_c(s, c).len() >= 1, forall|i: int| 0 <= i < split_c(s, c).len() ==> !(#[trigger] split_c(s, c)[i]).contains(c) decreases s.len()
{
    if s.len() > 0 {
        let p = split_c(s.drop_last(), c);
        lem_split_len(s.drop_last(), c);
        if s.last() != c {
            assert forall|i: int| 0 <= i < split_c(s, c).len() implies !(#[trigger] split_c(s, c)[i]).contains(c) by {
                if i == p.len() - 1 { let x = p.last().push(s.last()); if x.contains(c) { let j = choose|j: int| 0 <= j < x.len() && x[j] == c; assert(j < p.last().len()); assert(p.last()[j] == c); assert(p.last().contains(c)); assert(p[p.len() - 1].contains(c)); } }
                else { assert(split_c(s, c)[i] == p[i]); }
            }
        }
    }
}
/// a text with a separator in it
pub proof fn lem_split_cat(a: Seq<char>, b: Seq<char>, c: char) ensures split_c(a.push(c) + b, c) == split_c(a, c) + split_c(b, c) decreases b.len()
{
    let s = a.push(c) + b;
    if b.len() == 0 {
        assert(s.drop_last() =~= a);
        assert(split_c(s, c) =~= split_c(a, c) + split_c(b, c));
    } else {
        lem_split_cat(a, b.drop_last(), c);
        lem_split_len(b.drop_last(), c);
        assert(s.drop_last() =~= a.push(c) + b.drop_last());
        assert(split_c(s, c) =~= split_c(a, c) + split_c(b, c));
    }
}
proof fn lem_segs_push(s: Seq<Seq<char>>, x: Seq<char>) ensures segs_comps(s.push(x)) == segs_comps(s) + seg_comp(x, s.len() as int)
{ reveal(segs_comps); assert(s.push(x).drop_last() =~= s); }
/// components behind others: no '.' among them
#[verifier::opaque] pub open spec fn rest_comps(s: Seq<Seq<char>>) -> Seq<CompV> decreases s.len() { if s.len() == 0 { Seq::empty() } else { rest_comps(s.drop_last()) + seg_comp(s.last(), 1) } }
proof fn lem_segs_cat(s: Seq<Seq<char>>, t: Seq<Seq<char>>) requires s.len() > 0 ensures segs_comps(s + t) == segs_comps(s) + rest_comps(t) decreases t.len()
{
    reveal(rest_comps);
    if t.len() == 0 { assert(s + t =~= s); assert(segs_comps(s) + rest_comps(t) =~= segs_comps(s)); }
    else {
        lem_segs_cat(s, t.drop_last());
        assert(s + t =~= (s + t.drop_last()).push(t.last()));
        lem_segs_push(s + t.drop_last(), t.last());
        assert(segs_comps(s + t) =~= segs_comps(s) + rest_comps(t));
    }
}
proof fn lem_segs_rest(s: Seq<Seq<char>>) ensures segs_comps(s) == (if s.len() > 0 && s[0].len() == 1 && s[0][0] == '.' { seq![CompV::Cur] + rest_comps(s) } else { rest_comps(s) }) decreases s.len()
{
    reveal(segs_comps); reveal(rest_comps);
    if s.len() > 0 { lem_segs_rest(s.drop_last()); assert(segs_comps(s) =~= (if s.len() > 0 && s[0].len() == 1 && s[0][0] == '.' { seq![CompV::Cur] + rest_comps(s) } else { rest_comps(s) })) by { if s.len() == 1 { assert(s.drop_last().len() == 0); assert(rest_comps(s.drop_last()) =~= Seq::empty()); } else { assert(s.drop_last()[0] == s[0]); } } }
}
pub open spec fn rel_comps(s: Seq<char>) -> Seq<CompV> { rest_comps(split_c(s, '/')) }
/// components of a joined path
pub proof fn lem_join_comps(p: Seq<char>, s: Seq<char>)
    ensures s.len() > 0 && s[0] == '/' ==> p_join(p, s) == s, !(s.len() > 0 && s[0] == '/') && p.len() > 0 ==> p_comps(p_join(p, s)) == p_comps(p) + rel_comps(s), p.len() == 0 ==> p_join(p, s) == s
{
    reveal(p_join); reveal(p_comps);
    if p.len() == 0 { assert(p + s =~= s); }
    else if !(s.len() > 0 && s[0] == '/') {
        let j = p_join(p, s);
        if p.last() == '/' {
            let a = p.drop_last();
            assert(p =~= a.push('/'));
            lem_split_cat(a, s, '/'); lem_split_len(a, '/');
            lem_segs_cat(split_c(a, '/'), split_c(s, '/'));
            lem_segs_push(split_c(a, '/'), Seq::empty());
            assert(segs_comps(split_c(p, '/')) =~= segs_comps(split_c(a, '/')));
            assert(p_comps(j) =~= p_comps(p) + rel_comps(s));
        } else {
            lem_split_cat(p, s, '/'); lem_split_len(p, '/');
            lem_segs_cat(split_c(p, '/'), split_c(s, '/'));
            assert(p_comps(j) =~= p_comps(p) + rel_comps(s));
        }
    }
}
proof fn lem_strip(p: Seq<char>) ensures p_comps(p_strip(p)) == p_comps(p), p_strip(p).len() <= p.len(), ({ let q = p_strip(p); q.len() <= 1 || q.last() != '/' && !(q.last() == '.' && q[q.len() - 2] == '/') }), p.len() > 0 ==> p_strip(p).len() > 0 decreases p.len()
{
    reveal(p_strip); reveal(p_comps);
    if p.len() > 1 && p.last() == '/' {
        let a = p.drop_last();
        lem_strip(a);
        assert(p =~= a.push('/') + Seq::<char>::empty());
        lem_split_cat(a, Seq::empty(), '/'); lem_split_len(a, '/');
        assert(split_c(a, '/') + split_c(Seq::<char>::empty(), '/') =~= split_c(a, '/').push(Seq::empty()));
        lem_segs_push(split_c(a, '/'), Seq::empty());
        assert(p_comps(p) =~= p_comps(a));
    } else if p.len() > 1 && p.last() == '.' && p[p.len() - 2] == '/' {
        let b = p.drop_last();
        let a = b.drop_last();
        lem_strip(b);
        let d = seq!['.'];
        assert(p =~= a.push('/') + d);
        assert(b =~= a.push('/') + Seq::<char>::empty());
        lem_split_cat(a, d, '/'); lem_split_len(a, '/');
        lem_split_cat(a, Seq::empty(), '/');
        assert(split_c(Seq::<char>::empty(), '/') =~= seq![Seq::<char>::empty()]);
        assert(d.drop_last() =~= Seq::empty());
        assert(split_c(d, '/') =~= seq![d]);
        assert(split_c(p, '/') =~= split_c(a, '/').push(d));
        assert(split_c(b, '/') =~= split_c(a, '/').push(Seq::empty()));
        lem_segs_push(split_c(a, '/'), Seq::empty());
        lem_segs_push(split_c(a, '/'), d);
        assert(p_comps(p) =~= p_comps(b));
    }
}
proof fn lem_base(p: Seq<char>) ensures 0 <= p_base(p) <= p.len(), p_base(p) > 0 ==> p[p_base(p) - 1] == '/', forall|i: int| p_base(p) <= i < p.len() ==> p[i] != '/' decreases p.len()
{
    reveal(p_base);
    if p.len() > 0 && p.last() != '/' {
        lem_base(p.drop_last());
        assert forall|i: int| p_base(p) <= i < p.len() implies p[i] != '/' by { if i < p.len() - 1 { assert(p.drop_last()[i] == p[i]); } }
        if p_base(p) > 0 { assert(p.drop_last()[p_base(p) - 1] == p[p_base(p) - 1]); }
    }
}
proof fn lem_split_one(s: Seq<char>, c: char) requires forall|i: int| 0 <= i < s.len() ==> s[i] != c ensures split_c(s, c) == seq![s] decreases s.len()
{
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies d[i] != c by { assert(d[i] == s[i]); } lem_split_one(d, c); assert(split_c(s, c) =~= seq![s]) by { assert(d.push(s.last()) =~= s); } }
    else { assert(s =~= Seq::<char>::empty()); assert(split_c(s, c) =~= seq![s]); }
}
/// the parent has all components but the last
pub proof fn lem_parent(p: Seq<char>)
    ensures p_parent(p).is_some() == (p_comps(p).len() > 0 && !(p_comps(p).last() is Root)), p_parent(p).is_some() ==> p_comps(p_parent(p).unwrap()) == p_comps(p).drop_last() && p_parent(p).unwrap().len() < p.len()
{
    reveal(p_parent); reveal(p_comps);
    let q = p_strip(p);
    lem_strip(p);
    if q.len() == 0 { assert(q =~= Seq::empty()); lem_split_one(q, '/'); lem_segs_push(Seq::empty(), q); assert(Seq::<Seq<char>>::empty().push(q) =~= seq![q]); reveal(segs_comps); assert(p_comps(q) =~= Seq::empty()); }
    else if q.len() == 1 && q[0] == '/' {
        assert(q =~= Seq::<char>::empty().push('/') + Seq::<char>::empty());
        lem_split_cat(Seq::empty(), Seq::empty(), '/');
        let e = Seq::<char>::empty();
        lem_split_one(e, '/');
        assert(split_c(q, '/') =~= seq![e].push(e));
        lem_segs_push(seq![e], e); lem_segs_push(Seq::empty(), e);
        assert(Seq::<Seq<char>>::empty().push(e) =~= seq![e]);
        reveal(segs_comps);
        assert(p_comps(q) =~= seq![CompV::Root]);
    } else {
        let k = p_base(q);
        lem_base(q);
        let d = q.take(k);
        let n = q.skip(k);
        assert(k < q.len()) by { if k == q.len() { assert(q[k - 1] == '/'); } }
        lem_strip(d);
        assert forall|i: int| 0 <= i < n.len() implies n[i] != '/' by { assert(n[i] == q[k + i]); }
        lem_split_one(n, '/');
        if k == 0 {
            assert(n =~= q);
            assert(d =~= Seq::empty());
            lem_split_one(d, '/');
            lem_segs_push(Seq::empty(), q); lem_segs_push(Seq::empty(), d);
            assert(Seq::<Seq<char>>::empty().push(q) =~= seq![q]);
            assert(Seq::<Seq<char>>::empty().push(d) =~= seq![d]);
            reveal(segs_comps);
            assert(p_comps(d) =~= Seq::empty());
            assert(p_comps(q).len() == 1);
            assert(p_comps(q).drop_last() =~= p_comps(d));
        } else {
            let a = d.drop_last();
            assert(d =~= a.push('/') + Seq::<char>::empty());
            assert(q =~= a.push('/') + n);
            lem_split_cat(a, n, '/'); lem_split_cat(a, Seq::empty(), '/'); lem_split_len(a, '/');
            let e = Seq::<char>::empty();
            lem_split_one(e, '/');
            assert(split_c(q, '/') =~= split_c(a, '/').push(n));
            assert(split_c(d, '/') =~= split_c(a, '/').push(e));
            lem_segs_push(split_c(a, '/'), n); lem_segs_push(split_c(a, '/'), e);
            assert(q[0] == d[0]);
            assert(n.len() == 1 && n[0] == '.' ==> q.last() == '.' && q[q.len() - 2] == '/');
            assert(p_comps(d) =~= root_comp(q) + segs_comps(split_c(a, '/')));
            assert(seg_comp(n, split_c(a, '/').len() as int).len() == 1);
            assert(p_comps(q).drop_last() =~= p_comps(d));
        }
    }
}
pub broadcast proof fn ax_parent(p: Seq<char>) ensures (#[trigger] p_parent(p)).is_some() ==> p_parent(p).unwrap().len() < p.len() { lem_parent(p); }
proof fn lem_segs_names(s: Seq<Seq<char>>) requires forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).contains('/') ensures forall|i: int| 0 <= i < segs_comps(s).len() ==> ((#[trigger] segs_comps(s)[i]) is Root) == false && (segs_comps(s)[i] is Name ==> name_ok(segs_comps(s)[i]->Name_0)) decreases s.len()
{
    reveal(segs_comps);
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !(#[trigger] d[i]).contains('/') by { assert(d[i] == s[i]); }
        lem_segs_names(d);
        assert(!s[s.len() - 1].contains('/'));
        assert forall|i: int| 0 <= i < segs_comps(s).len() implies ((#[trigger] segs_comps(s)[i]) is Root) == false && (segs_comps(s)[i] is Name ==> name_ok(segs_comps(s)[i]->Name_0)) by {
            if i < segs_comps(d).len() { assert(segs_comps(s)[i] == segs_comps(d)[i]); }
        }
    }
}
/// a root only at the front; names are names
pub broadcast proof fn ax_comps_root(p: Seq<char>, i: int) requires 0 <= i < p_comps(p).len(), ensures (#[trigger] p_comps(p)[i]) is Root ==> i == 0, p_comps(p)[i] is Name ==> name_ok(p_comps(p)[i]->Name_0)
{
    reveal(p_comps);
    lem_split_len(p, '/');
    lem_segs_names(split_c(p, '/'));
    let r = root_comp(p);
    if i >= r.len() { assert(p_comps(p)[i] == segs_comps(split_c(p, '/'))[i - r.len()]); }
}
pub proof fn lem_comps_name(n: Seq<char>) requires name_ok(n) ensures rel_comps(n) == seq![CompV::Name(n)], p_comps(n) == seq![CompV::Name(n)], n[0] != '/'
{
    assert forall|i: int| 0 <= i < n.len() implies n[i] != '/' by { if n[i] == '/' { assert(n.contains('/')); } }
    lem_split_one(n, '/');
    reveal(rest_comps); reveal(segs_comps); reveal(p_comps);
    assert(seq![n].drop_last() =~= Seq::empty());
    assert(rest_comps(Seq::empty()) =~= Seq::empty());
    assert(segs_comps(Seq::empty()) =~= Seq::empty());
    assert(rel_comps(n) =~= seq![CompV::Name(n)]);
    assert(p_comps(n) =~= seq![CompV::Name(n)]);
}
pub broadcast proof fn ax_comps_empty() ensures #[trigger] p_comps(Seq::<char>::empty()) == Seq::<CompV>::empty() { lem_comps_empty(); }
pub proof fn lem_comps_empty() ensures p_comps(Seq::<char>::empty()) == Seq::<CompV>::empty()
{ reveal(p_comps); reveal(segs_comps); let e = Seq::<char>::empty(); lem_split_one(e, '/'); assert(seq![e].drop_last() =~= Seq::empty()); assert(segs_comps(Seq::empty()) =~= Seq::empty()); assert(p_comps(e) =~= Seq::empty()); }
pub broadcast proof fn ax_comps_slash() ensures #[trigger] p_comps(seq!['/']) == seq![CompV::Root] { lem_comps_slash(); }
proof fn lem_comps_slash() ensures p_comps(seq!['/']) == seq![CompV::Root]
{
    reveal(p_comps); reveal(segs_comps);
    let q = seq!['/'];
    let e = Seq::<char>::empty();
    assert(q =~= e.push('/') + e);
    lem_split_cat(e, e, '/'); lem_split_one(e, '/');
    assert(split_c(q, '/') =~= seq![e].push(e));
    lem_segs_push(seq![e], e); lem_segs_push(Seq::empty(), e);
    assert(Seq::<Seq<char>>::empty().push(e) =~= seq![e]);
    assert(p_comps(q) =~= seq![CompV::Root]);
}
/// environment: equal paths (component by component) name the same directory
pub axiom fn ax_fs_same(a: Seq<char>, b: Seq<char>, n: Seq<char>) requires p_eq(a, b),
    ensures fs_is_dir(a) == fs_is_dir(b), fs_is_file(p_join(a, n)) == fs_is_file(p_join(b, n)), fs_text(p_join(a, n)) == fs_text(p_join(b, n)), fs_mtime(p_join(a, n)) == fs_mtime(p_join(b, n));
pub proof fn ax_p_same(a: Seq<char>, b: Seq<char>, n: Seq<char>) requires p_eq(a, b),
    ensures p_eq(b, a), fs_is_dir(a) == fs_is_dir(b), fs_is_file(p_join(a, n)) == fs_is_file(p_join(b, n)), fs_text(p_join(a, n)) == fs_text(p_join(b, n)), fs_mtime(p_join(a, n)) == fs_mtime(p_join(b, n)),
        p_parent(a).is_some() == p_parent(b).is_some(), p_parent(a).is_some() ==> p_eq(p_parent(a).unwrap(), p_parent(b).unwrap())
{ ax_fs_same(a, b, n); lem_parent(a); lem_parent(b); reveal(p_eq); }
/// serialisation is injective (values are identified with their content)
pub broadcast axiom fn ax_json_text(a: Value, b: Value) ensures #[trigger] json_text(a) == #[trigger] json_text(b) ==> a == b;
/// the file system, fixed during a resolution
pub uninterp spec fn fs_is_file(p: Seq<char>) -> bool;
pub uninterp spec fn fs_is_dir(p: Seq<char>) -> bool;
pub uninterp spec fn fs_text(p: Seq<char>) -> Option<Seq<char>>;
/// a file that can be read has a name, and with it a parent
pub axiom fn ax_text_parent(p: Seq<char>) ensures fs_text(p).is_some() ==> p_parent(p).is_some();
pub uninterp spec fn fs_mtime(p: Seq<char>) -> Option<int>;
pub uninterp spec fn fs_real(p: Seq<char>) -> Option<Seq<char>>;
pub open spec fn fs_exists(p: Seq<char>) -> bool { fs_is_file(p) || fs_is_dir(p) || fs_other(p) }
pub uninterp spec fn fs_other(p: Seq<char>) -> bool;
impl PathBuf {
    #[verifier::external_body] pub fn new() -> (r: PathBuf) ensures r@ == Seq::<char>::empty() { PathBuf { p: String::new() } }
    #[verifier::external_body] pub fn as_pathstr(&self) -> (r: &str) ensures r@ == self@ { &self.p }
}
#[verifier::external_body] pub fn path_from(s: &str) -> (r: PathBuf) ensures r@ == s@ { PathBuf { p: s.to_string() } }
#[verifier::external_body] pub fn path_join(p: &PathBuf, s: &str) -> (r: PathBuf) ensures r@ == p_join(p@, s@) { PathBuf { p: vx_p(p).join(s).display().to_string() } }
#[verifier::external_body] pub fn path_parent<'a>(p: &'a PathBuf) -> (r: Option<&'a PathBuf>) ensures r.is_some() == p_parent(p@).is_some(), r.is_some() ==> r.unwrap()@ == p_parent(p@).unwrap() { vx_p(p).parent().map(|q| &*Box::leak(Box::new(PathBuf { p: q.display().to_string() }))) }
#[verifier::external_body] pub fn path_is_file(p: &PathBuf) -> (r: bool) ensures r == fs_is_file(p@) { vx_p(p).is_file() }
#[verifier::external_body] pub fn path_is_dir(p: &PathBuf) -> (r: bool) ensures r == fs_is_dir(p@) { vx_p(p).is_dir() }
#[verifier::external_body] pub fn path_exists(p: &PathBuf) -> (r: bool) ensures r == fs_exists(p@) { vx_p(p).exists() }
#[verifier::external_body] pub fn path_eq(a: &PathBuf, b: &PathBuf) -> (r: bool) ensures r == p_eq(a@, b@) { vx_p(a) == vx_p(b) }
#[verifier::external_body] pub fn path_display(p: &PathBuf) -> (r: VxDisp) ensures r.s@ == p@ { VxDisp { s: p.p.clone() } }
#[verifier::external_body] #[derive(Debug)] pub struct IoErr { x: u8 }
#[verifier::external_body] pub fn path_canonicalize(p: &PathBuf) -> (r: Result<PathBuf, IoErr>) ensures r.is_ok() == fs_real(p@).is_some(), r.is_ok() ==> r.unwrap()@ == fs_real(p@).unwrap() { vx_p(p).canonicalize().map(|q| PathBuf { p: q.display().to_string() }).map_err(|_| IoErr { x: 0 }) }
#[verifier::external_body] pub fn fs_read_to_string(p: &PathBuf) -> (r: Result<String, IoErr>) ensures r.is_ok() == fs_text(p@).is_some(), r.is_ok() ==> r.unwrap()@ == fs_text(p@).unwrap() { std::fs::read_to_string(vx_p(p)).map_err(|_| IoErr { x: 0 }) }
#[verifier::external_body] pub struct Metadata { m: std::fs::Metadata }
impl Metadata { pub uninterp spec fn mt(&self) -> Option<int>; #[verifier::external_body] pub fn modified(&self) -> (r: Result<SystemTime, IoErr>) ensures r.is_ok() == self.mt().is_some(), r.is_ok() ==> r.unwrap().ns() == self.mt().unwrap() { self.m.modified().map(|t| SystemTime { t }).map_err(|_| IoErr { x: 0 }) } }
#[verifier::external_body] pub fn fs_metadata(p: &PathBuf) -> (r: Result<Metadata, IoErr>) ensures r.is_ok() ==> r.unwrap().mt() == fs_mtime(p@), r.is_err() ==> fs_mtime(p@).is_none() { std::fs::metadata(vx_p(p)).map(|m| Metadata { m }).map_err(|_| IoErr { x: 0 }) }

// ---------- path components ----------
#[verifier::external_body] pub struct OsStr { s: String }
impl View for OsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] #[verifier::external_derive] #[derive(Clone)] pub struct PrefixComponent { x: u8 }
impl PrefixComponent { #[verifier::external_body] pub fn as_os_str(&self) -> (r: &OsStr) requires false { unreachable!() } }
#[verifier::external_derive] #[derive(Clone)] pub enum Component<'a> { Prefix(PrefixComponent), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
impl<'a> Component<'a> {
    /// the text of a component; a Windows prefix is a drive letter with ':', or begins with two '\\'
    #[verifier::external_body] pub fn as_os_str(&self) -> (r: &OsStr) ensures comp_v(*self) is Name ==> r@ == comp_v(*self)->Name_0, *self is RootDir ==> r@ == seq!['/'], *self is CurDir ==> r@ == seq!['.'], *self is ParentDir ==> r@ == seq!['.', '.'], *self is Prefix ==> r@.len() >= 2 && (r@[1] == ':' || r@[1] == '\\')
    { match self { Component::Normal(n) => n, Component::RootDir => Box::leak(Box::new(OsStr { s: "/".to_string() })), Component::CurDir => Box::leak(Box::new(OsStr { s: ".".to_string() })), _ => Box::leak(Box::new(OsStr { s: "..".to_string() })) } }
}
#[verifier::external_body] pub fn os_eq(a: &OsStr, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.s == b }
pub open spec fn comp_v(c: Component) -> CompV { match c { Component::RootDir => CompV::Root, Component::CurDir => CompV::Cur, Component::ParentDir => CompV::Up, Component::Normal(n) => CompV::Name(n@), Component::Prefix(_) => CompV::Root } }
pub open spec fn comps_v(s: Seq<Component>) -> Seq<CompV> { s.map_values(|c: Component| comp_v(c)) }
pub open spec fn comp_text(c: CompV) -> Seq<char> { match c { CompV::Root => seq!['/'], CompV::Cur => seq!['.'], CompV::Up => seq!['.', '.'], CompV::Name(n) => n } }
/// components put together, one behind the other
#[verifier::opaque] pub open spec fn comps_text(c: Seq<CompV>) -> Seq<char> decreases c.len() { if c.len() == 0 { Seq::empty() } else { p_join(comps_text(c.drop_last()), comp_text(c.last())) } }
/// the canonical text of a path: equal paths have the same
pub open spec fn canon(p: Seq<char>) -> Seq<char> { comps_text(p_comps(p)) }
impl<'a> FromViter<Component<'a>> for PathBuf { open spec fn from_v(s: Seq<Component<'a>>, r: PathBuf) -> bool { r@ == comps_text(comps_v(s)) } #[verifier::external_body] fn vx_from(v: Vec<Component<'a>>) -> Self { let q: std::path::PathBuf = v.iter().map(|c| match c { Component::Normal(n) => n.s.as_str(), Component::RootDir => "/", Component::CurDir => ".", _ => ".." }).collect(); PathBuf { p: q.display().to_string() } } }
proof fn lem_rest_no_cur(s: Seq<Seq<char>>) ensures forall|i: int| 0 <= i < rest_comps(s).len() ==> !((#[trigger] rest_comps(s)[i]) is Cur) decreases s.len()
{
    reveal(rest_comps);
    if s.len() > 0 { let d = s.drop_last(); lem_rest_no_cur(d);
        assert forall|i: int| 0 <= i < rest_comps(s).len() implies !((#[trigger] rest_comps(s)[i]) is Cur) by { if i < rest_comps(d).len() { assert(rest_comps(s)[i] == rest_comps(d)[i]); } } }
}
/// '.' only at the front
proof fn lem_cur_front(p: Seq<char>, i: int) requires 0 <= i < p_comps(p).len(), p_comps(p)[i] is Cur ensures i == 0
{
    reveal(p_comps); let s = split_c(p, '/');
    lem_segs_rest(s); lem_rest_no_cur(s); lem_split_len(p, '/');
    if root_comp(p).len() > 0 { let e = Seq::<char>::empty(); assert(p =~= e.push('/') + p.skip(1)); lem_split_cat(e, p.skip(1), '/'); lem_split_one(e, '/'); assert(s[0] == e); assert(p_comps(p)[i] == (if i == 0 { CompV::Root } else { rest_comps(s)[i - 1] })); }
    else { assert(p_comps(p) =~= segs_comps(s)); if i > 0 && segs_comps(s) == seq![CompV::Cur] + rest_comps(s) { assert(segs_comps(s)[i] == rest_comps(s)[i - 1]); } }
}
proof fn lem_up() ensures rel_comps(seq!['.', '.']) == seq![CompV::Up], p_comps(seq!['.', '.']) == seq![CompV::Up]
{
    let n = seq!['.', '.'];
    lem_split_one(n, '/');
    reveal(rest_comps); reveal(segs_comps); reveal(p_comps);
    assert(seq![n].drop_last() =~= Seq::empty());
    assert(rest_comps(Seq::empty()) =~= Seq::empty());
    assert(segs_comps(Seq::empty()) =~= Seq::empty());
    assert(rel_comps(n) =~= seq![CompV::Up]);
    assert(p_comps(n) =~= seq![CompV::Up]);
}
proof fn lem_cur() ensures p_comps(seq!['.']) == seq![CompV::Cur]
{
    let n = seq!['.'];
    lem_split_one(n, '/');
    reveal(segs_comps); reveal(p_comps);
    assert(seq![n].drop_last() =~= Seq::empty());
    assert(segs_comps(Seq::empty()) =~= Seq::empty());
    assert(p_comps(n) =~= seq![CompV::Cur]);
}
proof fn lem_canon_to(p: Seq<char>, n: int) requires 0 <= n <= p_comps(p).len() ensures p_comps(comps_text(p_comps(p).take(n))) == p_comps(p).take(n) decreases n
{
    reveal(comps_text);
    let c = p_comps(p); let d = c.take(n);
    if n == 0 { lem_comps_empty(); assert(d =~= Seq::empty()); }
    else {
        lem_canon_to(p, n - 1);
        assert(d.drop_last() =~= c.take(n - 1));
        let t = comps_text(c.take(n - 1)); let x = c[n - 1];
        ax_comps_root(p, n - 1);
        lem_join_comps(t, comp_text(x));
        if t.len() == 0 { assert(t =~= Seq::empty()); lem_comps_empty(); }
        assert(d.last() == x);
        assert(d =~= c.take(n - 1).push(x));
        match x {
            CompV::Root => { lem_comps_slash(); assert(c.take(0) =~= Seq::empty()); assert(p_comps(p_join(t, comp_text(x))) =~= d); }
            CompV::Cur => { lem_cur_front(p, n - 1); assert(c.take(0).len() == 0); assert(t.len() == 0); lem_cur(); assert(p_comps(p_join(t, comp_text(x))) =~= d); }
            CompV::Up => { lem_up(); assert(p_comps(p_join(t, comp_text(x))) =~= d); }
            CompV::Name(m) => { lem_comps_name(m); assert(p_comps(p_join(t, comp_text(x))) =~= d); }
        }
    }
}
/// the canonical text names the same path
pub broadcast proof fn lem_canon(p: Seq<char>) ensures p_comps(#[trigger] canon(p)) == p_comps(p) { lem_canon_to(p, p_comps(p).len() as int); assert(p_comps(p).take(p_comps(p).len() as int) =~= p_comps(p)); }
pub proof fn lem_canon_eq(a: Seq<char>, b: Seq<char>) ensures p_eq(a, b) == (canon(a) == canon(b)), p_eq(canon(a), a) { reveal(p_eq); lem_canon(a); lem_canon(b); }
/// no prefix components on this platform; a root only at the front
#[verifier::external_body] pub fn path_components<'a>(p: &'a PathBuf) -> (r: VIter<Component<'a>>)
    ensures r@.len() == p_comps(p@).len(), forall|i: int| #![trigger r@[i]] #![trigger p_comps(p@)[i]] 0 <= i < r@.len() ==> comp_v(r@[i]) == p_comps(p@)[i] && !(r@[i] is Prefix), comps_v(r@) == p_comps(p@) { VIter { v: vx_p(p).components().map(|c| match c { std::path::Component::RootDir => Component::RootDir, std::path::Component::CurDir => Component::CurDir, std::path::Component::ParentDir => Component::ParentDir, std::path::Component::Normal(n) => Component::Normal(Box::leak(Box::new(OsStr { s: n.to_str().unwrap().to_string() }))), std::path::Component::Prefix(_) => unreachable!() }).collect() } }
pub trait PushArg { spec fn txt(&self) -> Seq<char>; fn vx_txt(&self) -> &str; }
impl PushArg for OsStr { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_txt(&self) -> &str { &self.s } }
impl PushArg for str { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_txt(&self) -> &str { self } }
/// `push`: `join` in place
#[verifier::external_body] pub fn path_push<A: PushArg + ?Sized>(p: &mut PathBuf, a: &A) ensures final(p)@ == p_join(old(p)@, a.txt()) { let mut q = std::path::PathBuf::from(&p.p); q.push(a.vx_txt()); p.p = q.display().to_string(); }
/// `pop`: the parent, if there is one
#[verifier::external_body] pub fn path_pop(p: &mut PathBuf) -> (r: bool) ensures r == p_parent(old(p)@).is_some(), final(p)@ == (match p_parent(old(p)@) { Some(d) => d, None => old(p)@ }) { let mut q = std::path::PathBuf::from(&p.p); let r = q.pop(); p.p = q.display().to_string(); r }
/// a name, or the root, joined
pub broadcast proof fn bl_push_name(p: Seq<char>, n: Seq<char>) requires name_ok(n), ensures p_comps(#[trigger] p_join(p, n)) == p_comps(p).push(CompV::Name(n))
{ lem_comps_name(n); lem_join_comps(p, n); if p.len() == 0 { assert(p =~= Seq::<char>::empty()); lem_comps_empty(); } assert(p_comps(p_join(p, n)) =~= p_comps(p).push(CompV::Name(n))); }
pub broadcast proof fn bl_push_root(p: Seq<char>) ensures #[trigger] p_join(p, seq!['/']) == seq!['/'] { lem_join_comps(p, seq!['/']); }
pub broadcast proof fn bl_pop(p: Seq<char>) ensures ({ let c = p_comps(p); &&& (#[trigger] p_parent(p)).is_some() == (c.len() > 0 && !(c.last() is Root)) &&& p_parent(p).is_some() ==> p_comps(p_parent(p).unwrap()) == c.drop_last() }) { lem_parent(p); }

// ---------- multi-pattern search (daachorse) over the static table it was built from ----------
#[verifier::external_body] pub struct Pma { pub t: StrTable }
#[verifier::external_body] pub struct PmaIter { t: StrTable, s: String, pos: usize }
pub struct PmaMatch { pub v: usize, pub s: usize, pub e: usize }
impl PmaMatch {
    pub fn value(&self) -> (r: usize) ensures r == self.v { self.v }
    pub fn start(&self) -> (r: usize) ensures r == self.s { self.s }
    pub fn end(&self) -> (r: usize) ensures r == self.e { self.e }
}
impl Pma {
    pub uninterp spec fn tab(&self) -> StrTable;
    #[verifier::external_body] pub fn leftmost_find_iter(&self, t: &str) -> (r: PmaIter) ensures r.tab() == self.tab(), r.text() == t@, r.fresh() { PmaIter { t: self.t, s: t.to_string(), pos: 0 } }
}
/// an occurrence of entry v of the table at character k of the text
pub open spec fn pma_occ(t: StrTable, text: Seq<char>, v: int, k: int) -> bool { 0 <= v < t.n() && occurs_at(t.ent(v), text, k) }
impl PmaIter {
    pub uninterp spec fn tab(&self) -> StrTable;
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn fresh(&self) -> bool;
    /// the leftmost occurrence, the longest one there
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<PmaMatch>)
        ensures old(self).fresh() ==> match r {
            None => forall|v: int, k: int| !pma_occ(old(self).tab(), old(self).text(), v, k),
            Some(m) => exists|k: int| #[trigger] pma_occ(old(self).tab(), old(self).text(), m.v as int, k)
                && m.s == blen(old(self).text().take(k)) && m.e == m.s + blen(old(self).tab().ent(m.v as int)) && m.e <= blen(old(self).text()) < MAXS
                && (forall|v2: int, k2: int| pma_occ(old(self).tab(), old(self).text(), v2, k2) ==> k <= k2),
        } { loop {
            if self.pos > self.s.len() { return None; }
            if self.s.is_char_boundary(self.pos) {
                // the longest one here
                let mut best: Option<usize> = None;
                for (i, e) in self.t.v.iter().enumerate() { if self.s[self.pos..].starts_with(e) && best.map_or(true, |b| self.t.v[b].len() < e.len()) { best = Some(i); } }
                if let Some(v) = best { let s = self.pos; self.pos = s + self.t.v[v].len().max(1); return Some(PmaMatch { v, s, e: s + self.t.v[v].len() }); }
            }
            self.pos += 1;
        } }
}
