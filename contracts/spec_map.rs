// ---------- exports and imports maps ----------
/// the three sorts of keys: exact, "prefix*", "prefix/"
pub enum KK { File, Wild, Folder }
pub open spec fn im_get<V>(m: IndexMap<String, V>, k: Seq<char>) -> Option<V> { if m.m().dom().contains(k) { Some(m.m()[k]) } else { None } }
pub open spec fn leaf_get(t: PathTreeNode, p: Seq<char>, k: KK) -> Option<MappingValue> {
    match k { KK::File => im_get(t.files, p), KK::Wild => match t.wildcards { Some(w) => im_get(w, p), None => None }, KK::Folder => if p.len() == 0 { t.folder } else { None } }
}
pub open spec fn child(t: PathTreeNode, s: Seq<char>) -> Option<PathTreeNode> { match t.children { Some(c) => im_get(c, s), None => None } }
/// the value stored for a key
pub open spec fn tree_get(t: PathTreeNode, p: Seq<char>, k: KK) -> Option<MappingValue> decreases p.len() {
    let a = first_of(p, '/');
    if 0 <= a < p.len() { match child(t, p.take(a)) { Some(c) => tree_get(c, p.skip(a + 1), k), None => None } } else { leaf_get(t, p, k) }
}
/// a key as written (without "./" or "#"): "" and "x/" are directories, "x*" a pattern
pub open spec fn key_of(s: Seq<char>) -> (Seq<char>, KK) {
    if s.len() == 0 || s.last() == '/' { (s, KK::Folder) } else if s.last() == '*' { (s.drop_last(), KK::Wild) } else { (s, KK::File) }
}
pub open spec fn next_of(path: Seq<char>, c: char, i: int, x: Option<usize>) -> bool {
    match x { Some(x) => i <= x < path.len() && path[x as int] == c && (forall|j: int| i <= j < x ==> path[j] != c), None => forall|j: int| i <= j < path.len() ==> path[j] != c }
}

// ---------- the best matching key ----------
pub type Hit = Option<(MappingValue, int)>;
pub open spec fn hit(r: Option<(&MappingValue, i32)>) -> Hit { match r { Some(x) => Some((*x.0, x.1 as int)), None => None } }
/// the keys that match the first n characters of the request: a pattern before a directory
pub open spec fn best_at(t: PathTreeNode, req: Seq<char>, n: int) -> Hit {
    match tree_get(t, req.take(n), KK::Wild) { Some(v) => Some((v, n)), None => match tree_get(t, req.take(n), KK::Folder) { Some(v) => Some((v, -n - 1)), None => None } }
}
/// the longest of those shorter than n
pub open spec fn best_upto(t: PathTreeNode, req: Seq<char>, n: int) -> Hit decreases n {
    if n <= 0 { None } else { match best_at(t, req, n - 1) { Some(x) => Some(x), None => best_upto(t, req, n - 1) } }
}
pub open spec fn exact(t: PathTreeNode, req: Seq<char>) -> Option<MappingValue> {
    if t.children is None && t.folder is None && t.wildcards is None { im_get(t.files, req) } else { tree_get(t, req, KK::File) }
}
/// an exact key, otherwise the longest prefix: (value, where the rest of the request begins)
pub open spec fn best_match(t: PathTreeNode, req: Seq<char>) -> Hit {
    if req.len() == 0 { match im_get(t.files, req) { Some(v) => Some((v, 1)), None => None } }
    else { match exact(t, req) { Some(v) => Some((v, req.len() + 1int)), None => best_upto(t, req, req.len() + 1int) } }
}
pub open spec fn wild_upto(w: IndexMap<String, MappingValue>, rem: Seq<char>, pos: int, last: Hit, n: int) -> Hit decreases n {
    if n <= 0 { last } else if w.m().dom().contains(rem.take(n - 1)) { Some((w.m()[rem.take(n - 1)], pos + n - 1)) } else { wild_upto(w, rem, pos, last, n - 1) }
}
pub open spec fn wild_best(t: PathTreeNode, rem: Seq<char>, pos: int, last: Hit) -> Hit {
    match t.wildcards { Some(w) => wild_upto(w, rem, pos, last, rem.len() + 1int), None => last }
}
pub open spec fn folder_best(t: PathTreeNode, pos: int, last: Hit) -> Hit { match t.folder { Some(v) => Some((v, -pos - 1)), None => last } }

// ---------- conditions ----------
pub open spec fn k_default() -> Seq<char> { seq!['d', 'e', 'f', 'a', 'u', 'l', 't'] }
pub type Cond = IndexMap<String, MappingValue>;
/// a measure of a mapping: it bounds the search through nested conditions
pub open spec fn work_mv(v: MappingValue) -> nat decreases v, 0int {
    match v { MappingValue::Direct(_) => 0, MappingValue::Conditional(m) => 1 + work_from(m, 0), MappingValue::Array(a) => 1 + work_arr(a, 0) }
}
pub open spec fn work_am(v: AvailableMapping) -> nat decreases v, 0int {
    match v { AvailableMapping::Direct(_) => 0, AvailableMapping::Conditional(m) => 1 + work_from(m, 0) }
}
pub open spec fn work_from(m: Cond, i: int) -> nat decreases m, m.e().len() - i via work_from_dec {
    if 0 <= i < m.e().len() { 2 + work_mv(m.e()[i].1) + work_from(m, i + 1) } else { 0 }
}
pub open spec fn work_arr(a: Vec<AvailableMapping>, i: int) -> nat decreases a, a@.len() - i via work_arr_dec {
    if 0 <= i < a@.len() { 1 + work_am(a@[i]) + work_arr(a, i + 1) } else { 0 }
}
#[via_fn] proof fn work_from_dec(m: Cond, i: int) { if 0 <= i < m.e().len() { ax_im_dec(m, i); } }
#[via_fn] proof fn work_arr_dec(a: Vec<AvailableMapping>, i: int) { if 0 <= i < a@.len() { assert(decreases_to!(a => a@[i])); } }

pub enum Sel { Bad, Miss, Got(MappingValue) }
/// the first listed condition that is enabled ("default" always is, and has to be the last one);
/// nested conditions without a match are passed over
pub open spec fn cond_from(m: Cond, conds: Set<Seq<char>>, i: int) -> Sel decreases m, m.e().len() - i via cond_from_dec {
    if 0 <= i < m.e().len() {
        let k = m.e()[i].0;
        if k == k_default() && i != m.e().len() - 1 { Sel::Bad }
        else if k == k_default() || conds.contains(k) {
            match m.e()[i].1 { MappingValue::Conditional(n) => match cond_from(n, conds, 0) { Sel::Miss => cond_from(m, conds, i + 1), x => x }, v => Sel::Got(v) }
        } else { cond_from(m, conds, i + 1) }
    } else { Sel::Miss }
}
#[via_fn] proof fn cond_from_dec(m: Cond, conds: Set<Seq<char>>, i: int) { if 0 <= i < m.e().len() { ax_im_dec(m, i); } }
pub open spec fn stack_sel(s: Seq<(&Cond, Vec<String>, usize)>, conds: Set<Seq<char>>, n: int) -> Sel decreases n {
    if n <= 0 { Sel::Miss } else { match cond_from(*s[n - 1].0, conds, s[n - 1].2 as int) { Sel::Miss => stack_sel(s, conds, n - 1), x => x } }
}
pub open spec fn stack_work(s: Seq<(&Cond, Vec<String>, usize)>, n: int) -> nat decreases n {
    if n <= 0 { 0 } else { 1 + work_from(*s[n - 1].0, s[n - 1].2 as int) + stack_work(s, n - 1) }
}
pub open spec fn frame_ok(f: (&Cond, Vec<String>, usize)) -> bool { f.1@.len() == f.0.e().len() && f.2 <= f.1@.len() && forall|i: int| 0 <= i < f.1@.len() ==> (#[trigger] f.1@[i])@ == f.0.e()[i].0 }

// ---------- targets ----------
pub open spec fn slash_end(t: Seq<char>) -> bool { t.len() > 0 && t.last() == '/' }
pub open spec fn target_ok_exports(t: Seq<char>) -> bool { !(blen(t) < 2 || t[0] == '/' || (t[0] == '.' && !is_prefix(seq!['.', '/'], t))) }
pub open spec fn target_ok_imports(t: Seq<char>) -> bool { true }
pub type Targets = Option<Seq<Seq<char>>>;
pub open spec fn subst(ok: bool, rem: Option<Seq<char>>, sub: bool, t: Seq<char>) -> Option<Seq<char>> {
    if !ok { None } else { match rem {
        None => if slash_end(t) { None } else { Some(t) },
        Some(x) => if sub != slash_end(t) { None } else if sub { Some(t + x) } else { Some(replace_c(t, '*', x)) },
    } }
}
pub open spec fn subst_exports(rem: Option<Seq<char>>, sub: bool, t: Seq<char>) -> Option<Seq<char>> { subst(target_ok_exports(t), rem, sub, t) }
pub open spec fn subst_imports(rem: Option<Seq<char>>, sub: bool, t: Seq<char>) -> Option<Seq<char>> { subst(target_ok_imports(t), rem, sub, t) }
pub open spec fn ostr(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn strs_of(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn as_targets(r: Result<Vec<String>, String>, t: Targets) -> bool { match r { Ok(l) => t is Some && strs_of(l@) =~= t->Some_0, Err(e) => t is None && e@ != tag() } }

/// what a mapping value stands for, once the best key is known; arrays list several targets
pub open spec fn targets_exports(v: MappingValue, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>) -> Targets decreases v, 0int via targets_exports_dec {
    match v {
        MappingValue::Direct(t) => match subst_exports(rem, sub, t@) { Some(x) => Some(seq![x]), None => None },
        MappingValue::Conditional(m) => match cond_from(m, conds, 0) { Sel::Bad => None, Sel::Miss => Some(seq![]), Sel::Got(x) => targets_exports(x, rem, sub, conds) },
        MappingValue::Array(a) => tarr_exports(a, rem, sub, conds, a@.len() as int),
    }
}
pub open spec fn tam_exports(v: AvailableMapping, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>) -> Targets decreases v, 0int via tam_exports_dec {
    match v {
        AvailableMapping::Direct(t) => match subst_exports(rem, sub, t@) { Some(x) => Some(seq![x]), None => None },
        AvailableMapping::Conditional(m) => match cond_from(m, conds, 0) { Sel::Bad => None, Sel::Miss => Some(seq![]), Sel::Got(x) => targets_exports(x, rem, sub, conds) },
    }
}
pub open spec fn tarr_exports(a: Vec<AvailableMapping>, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>, n: int) -> Targets decreases a, n via tarr_exports_dec {
    if n <= 0 || n > a@.len() { Some(seq![]) } else {
        match tarr_exports(a, rem, sub, conds, n - 1) { None => None, Some(x) => match tam_exports(a@[n - 1], rem, sub, conds) { None => None, Some(y) => Some(x + y) } }
    }
}
#[via_fn] proof fn targets_exports_dec(v: MappingValue, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>) { match v { MappingValue::Conditional(m) => { lem_got_dec(m, conds, 0); } _ => {} } }
#[via_fn] proof fn tam_exports_dec(v: AvailableMapping, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>) { match v { AvailableMapping::Conditional(m) => { lem_got_dec(m, conds, 0); } _ => {} } }
#[via_fn] proof fn tarr_exports_dec(a: Vec<AvailableMapping>, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>, n: int) { if 0 < n <= a@.len() { assert(decreases_to!(a => a@[n - 1])); } }

/// what a mapping value stands for, once the best key is known; arrays list several targets
pub open spec fn targets_imports(v: MappingValue, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>) -> Targets decreases v, 0int via targets_imports_dec {
    match v {
        MappingValue::Direct(t) => match subst_imports(rem, sub, t@) { Some(x) => Some(seq![x]), None => None },
        MappingValue::Conditional(m) => match cond_from(m, conds, 0) { Sel::Bad => None, Sel::Miss => Some(seq![]), Sel::Got(x) => targets_imports(x, rem, sub, conds) },
        MappingValue::Array(a) => tarr_imports(a, rem, sub, conds, a@.len() as int),
    }
}
pub open spec fn tam_imports(v: AvailableMapping, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>) -> Targets decreases v, 0int via tam_imports_dec {
    match v {
        AvailableMapping::Direct(t) => match subst_imports(rem, sub, t@) { Some(x) => Some(seq![x]), None => None },
        AvailableMapping::Conditional(m) => match cond_from(m, conds, 0) { Sel::Bad => None, Sel::Miss => Some(seq![]), Sel::Got(x) => targets_imports(x, rem, sub, conds) },
    }
}
pub open spec fn tarr_imports(a: Vec<AvailableMapping>, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>, n: int) -> Targets decreases a, n via tarr_imports_dec {
    if n <= 0 || n > a@.len() { Some(seq![]) } else {
        match tarr_imports(a, rem, sub, conds, n - 1) { None => None, Some(x) => match tam_imports(a@[n - 1], rem, sub, conds) { None => None, Some(y) => Some(x + y) } }
    }
}
#[via_fn] proof fn targets_imports_dec(v: MappingValue, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>) { match v { MappingValue::Conditional(m) => { lem_got_dec(m, conds, 0); } _ => {} } }
#[via_fn] proof fn tam_imports_dec(v: AvailableMapping, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>) { match v { AvailableMapping::Conditional(m) => { lem_got_dec(m, conds, 0); } _ => {} } }
#[via_fn] proof fn tarr_imports_dec(a: Vec<AvailableMapping>, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>, n: int) { if 0 < n <= a@.len() { assert(decreases_to!(a => a@[n - 1])); } }

/// the value selected from conditions is a part of them
pub proof fn lem_got_dec(m: Cond, conds: Set<Seq<char>>, i: int)
    ensures cond_from(m, conds, i) is Got ==> decreases_to!(m => cond_from(m, conds, i)->Got_0),
        cond_from(m, conds, i) is Got && 0 <= i ==> work_mv(cond_from(m, conds, i)->Got_0) + 1 < work_from(m, i),
    decreases m, m.e().len() - i
{
    reveal_with_fuel(work_from, 3); reveal_with_fuel(work_mv, 3);
    if 0 <= i < m.e().len() {
        ax_im_dec(m, i);
        if let MappingValue::Conditional(n) = m.e()[i].1 { lem_got_dec(n, conds, 0); }
        lem_got_dec(m, conds, i + 1);
    }
}

// ---------- requests into a map ----------
pub open spec fn req_exports(t: Seq<char>) -> Option<Seq<char>> {
    if t.len() == 0 || t[0] != '.' { None } else if blen(t) == 1 { Some(seq![]) } else if !is_prefix(seq!['.', '/'], t) || slash_end(t) { None } else { Some(t.skip(2)) }
}
pub open spec fn req_imports(t: Seq<char>) -> Option<Seq<char>> {
    if t.len() == 0 || t[0] != '#' || blen(t) == 1 || is_prefix(seq!['#', '/'], t) || slash_end(t) { None } else { Some(t.skip(1)) }
}
/// what is left of the request, from the index of the best match
pub open spec fn rest_of(req: Seq<char>, ix: int) -> Option<Seq<char>> { if ix == req.len() + 1 { None } else if ix < 0 { Some(req.skip(-ix - 1)) } else { Some(req.skip(ix)) } }
pub open spec fn same_rest(a: Option<Seq<char>>, b: Option<Seq<char>>) -> bool { match (a, b) { (Some(x), Some(y)) => x =~= y, (None, None) => true, _ => false } }
pub proof fn lem_best_bounds(t: PathTreeNode, req: Seq<char>, n: int)
    requires n <= req.len() + 1,
    ensures best_upto(t, req, n) is Some ==> -n <= best_upto(t, req, n)->Some_0.1 < n,
    decreases n
{ if n > 0 { lem_best_bounds(t, req, n - 1); } }

pub open spec fn tg_exports(v: MappingValue, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>, out: Result<Vec<String>, String>) -> bool { as_targets(out, targets_exports(v, rem, sub, conds)) }
/// the targets for a request: `out` is what is listed for the best matching key, with the rest of the request filled in
#[verifier::opaque] pub open spec fn fp_exports(t: PathTreeNode, sub: Seq<char>, conds: Set<Seq<char>>, out: Result<Vec<String>, String>) -> bool {
    match req_exports(sub) {
        None => as_targets(out, None),
        Some(req) => match best_match(t, req) {
            None => as_targets(out, Some(seq![])),
            Some(h) => exists|x: Option<Seq<char>>, b: bool| #[trigger] tg_exports(h.0, x, b, conds, out) && b == (h.1 < 0) && same_rest(x, rest_of(req, h.1)),
        },
    }
}

pub open spec fn tg_imports(v: MappingValue, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>, out: Result<Vec<String>, String>) -> bool { as_targets(out, targets_imports(v, rem, sub, conds)) }
/// the targets for a request: `out` is what is listed for the best matching key, with the rest of the request filled in
#[verifier::opaque] pub open spec fn fp_imports(t: PathTreeNode, sub: Seq<char>, conds: Set<Seq<char>>, out: Result<Vec<String>, String>) -> bool {
    match req_imports(sub) {
        None => as_targets(out, None),
        Some(req) => match best_match(t, req) {
            None => as_targets(out, Some(seq![])),
            Some(h) => exists|x: Option<Seq<char>>, b: bool| #[trigger] tg_imports(h.0, x, b, conds, out) && b == (h.1 < 0) && same_rest(x, rest_of(req, h.1)),
        },
    }
}
// ---------- targets inside the package ----------
pub open spec fn seg_step(s: Seq<char>) -> int { if s =~= seq!['.', '.'] { -1 } else if s.len() == 0 || s =~= seq!['.'] { 0 } else { 1 } }
pub open spec fn seg_depth(s: Seq<Seq<char>>, n: int) -> int decreases n { if n <= 0 { 0 } else { seg_depth(s, n - 1) + seg_step(s[n - 1]) } }
/// a relative path which at no point is above where it starts
pub open spec fn contained(t: Seq<char>) -> bool {
    (t.len() == 0 || t[0] != '/') && forall|n: int| 0 <= n <= split_c(t, '/').len() ==> #[trigger] seg_depth(split_c(t, '/'), n) >= 0
}

pub proof fn lem_stack_cong(s: Seq<(&Cond, Vec<String>, usize)>, t: Seq<(&Cond, Vec<String>, usize)>, conds: Set<Seq<char>>, n: int)
    requires n <= s.len(), n <= t.len(), forall|k: int| 0 <= k < n ==> (#[trigger] s[k]).0 == (#[trigger] t[k]).0 && s[k].2 == t[k].2,
    ensures stack_sel(s, conds, n) == stack_sel(t, conds, n), stack_work(s, n) == stack_work(t, n),
    decreases n
{
    if n > 0 { lem_stack_cong(s, t, conds, n - 1); assert(s[n - 1].0 == t[n - 1].0); }
}
/// going into nested conditions at position i of the last frame
pub proof fn lem_stack_push(s: Seq<(&Cond, Vec<String>, usize)>, t: Seq<(&Cond, Vec<String>, usize)>, conds: Set<Seq<char>>, i: int)
    requires s.len() > 0, t.len() == s.len() + 1, 0 <= s.last().2 <= i < s.last().0.e().len(),
        forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] t[k] == s[k],
        t[s.len() - 1].0 == s.last().0, t[s.len() - 1].2 == i + 1, t.last().2 == 0,
        s.last().0.e()[i].1 == MappingValue::Conditional(*t.last().0),
        cond_from(*s.last().0, conds, s.last().2 as int) == cond_from(*s.last().0, conds, i),
        s.last().0.e()[i].0 == k_default() ==> i == s.last().0.e().len() - 1,
        s.last().0.e()[i].0 == k_default() || conds.contains(s.last().0.e()[i].0),
    ensures stack_sel(t, conds, t.len() as int) == stack_sel(s, conds, s.len() as int), stack_work(t, t.len() as int) < stack_work(s, s.len() as int)
{
    reveal_with_fuel(work_from, 3); reveal_with_fuel(work_mv, 3); reveal_with_fuel(stack_sel, 3); reveal_with_fuel(stack_work, 3);
    lem_stack_cong(s, t, conds, s.len() - 1);
    lem_work_mono(*s.last().0, s.last().2 as int, i);
    lem_work_mono(*s.last().0, i, i + 1);
}
pub proof fn lem_work_mono(m: Cond, i: int, j: int) requires 0 <= i <= j <= m.e().len(), ensures work_from(m, i) >= work_from(m, j), decreases j - i
{
    reveal_with_fuel(work_from, 3);
    if i < j { lem_work_mono(m, i + 1, j); }
}
pub proof fn lem_stacks(conds: Set<Seq<char>>)
    ensures
        forall|s: Seq<(&Cond, Vec<String>, usize)>, n: int| 0 <= n <= s.len() ==> #[trigger] stack_sel(s.subrange(0, n), conds, n) == stack_sel(s, conds, n),
        forall|s: Seq<(&Cond, Vec<String>, usize)>, n: int| 0 <= n <= s.len() ==> #[trigger] stack_work(s.subrange(0, n), n) == stack_work(s, n),
        forall|s: Seq<(&Cond, Vec<String>, usize)>| s.len() > 0 ==> #[trigger] stack_sel(s, conds, s.len() as int) == (match cond_from(*s.last().0, conds, s.last().2 as int) { Sel::Miss => stack_sel(s, conds, s.len() - 1), x => x }),
        forall|s: Seq<(&Cond, Vec<String>, usize)>| s.len() > 0 ==> #[trigger] stack_work(s, s.len() as int) == 1 + work_from(*s.last().0, s.last().2 as int) + stack_work(s, s.len() - 1),
        forall|s: Seq<(&Cond, Vec<String>, usize)>| #[trigger] stack_sel(s, conds, 0) is Miss,
{
    assert forall|s: Seq<(&Cond, Vec<String>, usize)>, n: int| 0 <= n <= s.len() implies #[trigger] stack_sel(s.subrange(0, n), conds, n) == stack_sel(s, conds, n) by { lem_stack_cong(s.subrange(0, n), s, conds, n); }
    assert forall|s: Seq<(&Cond, Vec<String>, usize)>, n: int| 0 <= n <= s.len() implies #[trigger] stack_work(s.subrange(0, n), n) == stack_work(s, n) by { lem_stack_cong(s.subrange(0, n), s, conds, n); }
}
pub proof fn lem_work_arr(a: Vec<AvailableMapping>, i: int, j: int) requires 0 <= i <= j < a@.len(), ensures work_arr(a, i) > work_am(a@[j]), decreases j - i
{
    reveal_with_fuel(work_arr, 3);
    if i < j { lem_work_arr(a, i + 1, j); }
}
/// nested mappings are smaller
pub proof fn lem_works(v: MappingValue, conds: Set<Seq<char>>)
    ensures match v {
        MappingValue::Direct(_) => true,
        MappingValue::Conditional(m) => cond_from(m, conds, 0) is Got ==> work_mv(cond_from(m, conds, 0)->Got_0) < work_mv(v),
        MappingValue::Array(a) => forall|i: int| 0 <= i < a@.len() ==> match #[trigger] a@[i] { AvailableMapping::Direct(_) => true, AvailableMapping::Conditional(m) => cond_from(m, conds, 0) is Got ==> work_mv(cond_from(m, conds, 0)->Got_0) < work_mv(v) },
    }
{
    reveal_with_fuel(work_mv, 3); reveal_with_fuel(work_am, 3);
    match v {
        MappingValue::Direct(_) => {}
        MappingValue::Conditional(m) => { lem_got_dec(m, conds, 0); }
        MappingValue::Array(a) => { assert forall|i: int| 0 <= i < a@.len() implies match #[trigger] a@[i] { AvailableMapping::Direct(_) => true, AvailableMapping::Conditional(m) => cond_from(m, conds, 0) is Got ==> work_mv(cond_from(m, conds, 0)->Got_0) < work_mv(v) } by {
            lem_work_arr(a, 0, i);
            match a@[i] { AvailableMapping::Conditional(m) => { lem_got_dec(m, conds, 0); } _ => {} }
        } }
    }
}

pub proof fn lem_tarr_exports(a: Vec<AvailableMapping>, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>, n: int)
    ensures forall|k: int| 0 <= k <= n <= a@.len() && #[trigger] tarr_exports(a, rem, sub, conds, k) is None ==> tarr_exports(a, rem, sub, conds, n) is None,
    decreases n
{
    reveal_with_fuel(tarr_exports, 2);
    if 0 < n <= a@.len() { lem_tarr_exports(a, rem, sub, conds, n - 1); }
}
pub proof fn lem_targets_exports(v: MappingValue, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>)
    ensures v is Array ==> forall|k: int| 0 <= k <= v->Array_0@.len() && #[trigger] tarr_exports(v->Array_0, rem, sub, conds, k) is None ==> targets_exports(v, rem, sub, conds) is None,
        v is Array ==> targets_exports(v, rem, sub, conds) == tarr_exports(v->Array_0, rem, sub, conds, v->Array_0@.len() as int),
        v is Array ==> tarr_exports(v->Array_0, rem, sub, conds, 0) == Some(Seq::<Seq<char>>::empty()),
{
    reveal_with_fuel(targets_exports, 3); reveal_with_fuel(tarr_exports, 3);
    if let MappingValue::Array(a) = v { lem_tarr_exports(a, rem, sub, conds, a@.len() as int); }
}
/// one more element of an array of targets
pub proof fn lem_tarr_step_exports(a: Vec<AvailableMapping>, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>, k: int)
    requires 0 <= k < a@.len(),
    ensures tarr_exports(a, rem, sub, conds, k + 1) == (match tarr_exports(a, rem, sub, conds, k) { None => None, Some(x) => match a@[k] {
            AvailableMapping::Direct(t) => match subst_exports(rem, sub, t@) { Some(y) => Some(x.push(y)), None => None },
            AvailableMapping::Conditional(m) => match cond_from(m, conds, 0) { Sel::Bad => None, Sel::Miss => Some(x), Sel::Got(y) => match targets_exports(y, rem, sub, conds) { None => None, Some(z) => Some(x + z) } },
        } }),
{
    reveal_with_fuel(tarr_exports, 3); reveal_with_fuel(tam_exports, 3);
    if let Some(x) = tarr_exports(a, rem, sub, conds, k) {
        assert(x + seq![] =~= x);
        match a@[k] { AvailableMapping::Direct(t) => { match subst_exports(rem, sub, t@) { Some(y) => { assert(x + seq![y] =~= x.push(y)); } None => {} } } _ => {} }
    }
}

pub proof fn lem_tarr_imports(a: Vec<AvailableMapping>, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>, n: int)
    ensures forall|k: int| 0 <= k <= n <= a@.len() && #[trigger] tarr_imports(a, rem, sub, conds, k) is None ==> tarr_imports(a, rem, sub, conds, n) is None,
    decreases n
{
    reveal_with_fuel(tarr_imports, 2);
    if 0 < n <= a@.len() { lem_tarr_imports(a, rem, sub, conds, n - 1); }
}
pub proof fn lem_targets_imports(v: MappingValue, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>)
    ensures v is Array ==> forall|k: int| 0 <= k <= v->Array_0@.len() && #[trigger] tarr_imports(v->Array_0, rem, sub, conds, k) is None ==> targets_imports(v, rem, sub, conds) is None,
        v is Array ==> targets_imports(v, rem, sub, conds) == tarr_imports(v->Array_0, rem, sub, conds, v->Array_0@.len() as int),
        v is Array ==> tarr_imports(v->Array_0, rem, sub, conds, 0) == Some(Seq::<Seq<char>>::empty()),
{
    reveal_with_fuel(targets_imports, 3); reveal_with_fuel(tarr_imports, 3);
    if let MappingValue::Array(a) = v { lem_tarr_imports(a, rem, sub, conds, a@.len() as int); }
}
/// one more element of an array of targets
pub proof fn lem_tarr_step_imports(a: Vec<AvailableMapping>, rem: Option<Seq<char>>, sub: bool, conds: Set<Seq<char>>, k: int)
    requires 0 <= k < a@.len(),
    ensures tarr_imports(a, rem, sub, conds, k + 1) == (match tarr_imports(a, rem, sub, conds, k) { None => None, Some(x) => match a@[k] {
            AvailableMapping::Direct(t) => match subst_imports(rem, sub, t@) { Some(y) => Some(x.push(y)), None => None },
            AvailableMapping::Conditional(m) => match cond_from(m, conds, 0) { Sel::Bad => None, Sel::Miss => Some(x), Sel::Got(y) => match targets_imports(y, rem, sub, conds) { None => None, Some(z) => Some(x + z) } },
        } }),
{
    reveal_with_fuel(tarr_imports, 3); reveal_with_fuel(tam_imports, 3);
    if let Some(x) = tarr_imports(a, rem, sub, conds, k) {
        assert(x + seq![] =~= x);
        match a@[k] { AvailableMapping::Direct(t) => { match subst_imports(rem, sub, t@) { Some(y) => { assert(x + seq![y] =~= x.push(y)); } None => {} } } _ => {} }
    }
}

pub open spec fn pushed(s: Seq<(&Cond, Vec<String>, usize)>, t: Seq<(&Cond, Vec<String>, usize)>, conds: Set<Seq<char>>, i: int) -> bool {
    s.len() > 0 && t.len() == s.len() + 1 && 0 <= s.last().2 <= i < s.last().0.e().len()
        && (forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] t[k] == s[k])
        && t[s.len() - 1].0 == s.last().0 && t[s.len() - 1].2 == i + 1 && t.last().2 == 0
        && s.last().0.e()[i].1 == MappingValue::Conditional(*t.last().0)
        && cond_from(*s.last().0, conds, s.last().2 as int) == cond_from(*s.last().0, conds, i)
        && (s.last().0.e()[i].0 == k_default() ==> i == s.last().0.e().len() - 1)
        && (s.last().0.e()[i].0 == k_default() || conds.contains(s.last().0.e()[i].0))
}
pub proof fn lem_pushes(s: Seq<(&Cond, Vec<String>, usize)>, conds: Set<Seq<char>>)
    ensures forall|t: Seq<(&Cond, Vec<String>, usize)>| pushed(s, t, conds, t[s.len() - 1].2 - 1) ==> #[trigger] stack_sel(t, conds, t.len() as int) == stack_sel(s, conds, s.len() as int),
        forall|t: Seq<(&Cond, Vec<String>, usize)>| pushed(s, t, conds, t[s.len() - 1].2 - 1) ==> #[trigger] stack_work(t, t.len() as int) < stack_work(s, s.len() as int)
{
    assert forall|t: Seq<(&Cond, Vec<String>, usize)>| pushed(s, t, conds, t[s.len() - 1].2 - 1) implies #[trigger] stack_sel(t, conds, t.len() as int) == stack_sel(s, conds, s.len() as int) by { lem_stack_push(s, t, conds, t[s.len() - 1].2 - 1); }
    assert forall|t: Seq<(&Cond, Vec<String>, usize)>| pushed(s, t, conds, t[s.len() - 1].2 - 1) implies #[trigger] stack_work(t, t.len() as int) < stack_work(s, s.len() as int) by { lem_stack_push(s, t, conds, t[s.len() - 1].2 - 1); }
}

// ---------- building and searching the tree of keys ----------
pub proof fn lem_first_at(p: Seq<char>, s: Seq<char>)
    requires !s.contains('/'),
    ensures is_prefix(s.push('/'), p) ==> first_of(p, '/') == s.len() && p.take(s.len() as int) =~= s,
        0 <= first_of(p, '/') < p.len() && p.take(first_of(p, '/')) =~= s ==> is_prefix(s.push('/'), p),
{
    lemma_first_of(p, '/');
    let a = first_of(p, '/');
    if is_prefix(s.push('/'), p) {
        let n = s.len() as int;
        assert(p.take(n + 1)[n] == s.push('/')[n]);
        assert forall|i: int| 0 <= i < n implies p[i] == s[i] by { assert(p.take(n + 1)[i] == s.push('/')[i]); }
        if a < n { assert(s[a] == '/'); assert(s.contains('/')); }
        if a > n { assert(p[n] == '/'); }
    }
}
pub proof fn lem_no_slash(s: Seq<char>) requires !s.contains('/'), ensures first_of(s, '/') == s.len()
{ lemma_first_of(s, '/'); }
/// what the part of the tree below `pre` holds: before (r, n) and after (rf, nf) a change below it
#[verifier::opaque] pub open spec fn part_of(rf: PathTreeNode, nf: PathTreeNode, r: PathTreeNode, n: PathTreeNode, pre: Seq<char>) -> bool {
    &&& forall|p: Seq<char>, k: KK| #[trigger] tree_get(rf, p, k) == (if is_prefix(pre, p) { tree_get(nf, p.skip(pre.len() as int), k) } else { tree_get(r, p, k) })
    &&& forall|q: Seq<char>, k: KK| #[trigger] tree_get(n, q, k) == tree_get(r, pre + q, k)
}
pub proof fn lem_part_self(rf: PathTreeNode, r: PathTreeNode) ensures part_of(rf, rf, r, r, Seq::<char>::empty())
{
    reveal(part_of);
    let e = Seq::<char>::empty();
    assert forall|p: Seq<char>| #[trigger] is_prefix(e, p) by { assert(p.take(0) =~= e); }
    assert forall|p: Seq<char>, k: KK| #[trigger] tree_get(rf, p, k) == (if is_prefix(e, p) { tree_get(rf, p.skip(e.len() as int), k) } else { tree_get(r, p, k) }) by { assert(p.take(0) =~= e); assert(p.skip(0) =~= p); }
    assert forall|q: Seq<char>, k: KK| #[trigger] tree_get(r, q, k) == tree_get(r, e + q, k) by { assert(e + q =~= q); }
}
pub proof fn lem_part_trans(rf: PathTreeNode, nf: PathTreeNode, cf: PathTreeNode, r: PathTreeNode, n: PathTreeNode, c: PathTreeNode, a: Seq<char>, b: Seq<char>)
    requires part_of(rf, nf, r, n, a), part_of(nf, cf, n, c, b),
    ensures part_of(rf, cf, r, c, a + b),
{
    reveal(part_of);
    assert forall|p: Seq<char>, k: KK| #[trigger] tree_get(rf, p, k) == (if is_prefix(a + b, p) { tree_get(cf, p.skip((a + b).len() as int), k) } else { tree_get(r, p, k) }) by {
        let l = a.len() as int;
        if is_prefix(a, p) {
            let q = p.skip(l);
            assert(tree_get(nf, q, k) == (if is_prefix(b, q) { tree_get(cf, q.skip(b.len() as int), k) } else { tree_get(n, q, k) }));
            if b.len() <= q.len() { assert(q.skip(b.len() as int) =~= p.skip((a + b).len() as int)); }
            assert(a + q =~= p);
            if is_prefix(b, q) { assert(p.take((a + b).len() as int) =~= p.take(l) + q.take(b.len() as int)); }
            if is_prefix(a + b, p) { assert(q.take(b.len() as int) =~= p.take((a + b).len() as int).skip(l)); assert((a + b).skip(l) =~= b); }
        } else if is_prefix(a + b, p) {
            assert(p.take(l) =~= p.take((a + b).len() as int).take(l)); assert((a + b).take(l) =~= a);
        }
    }
    assert forall|q: Seq<char>, k: KK| #[trigger] tree_get(c, q, k) == tree_get(r, (a + b) + q, k) by {
        assert(tree_get(c, q, k) == tree_get(n, b + q, k));
        assert(tree_get(n, b + q, k) == tree_get(r, a + (b + q), k));
        assert(a + (b + q) =~= (a + b) + q);
    }
}
pub open spec fn children_of(t: PathTreeNode) -> Map<Seq<char>, PathTreeNode> { match t.children { Some(c) => c.m(), None => Map::empty() } }
pub open spec fn no_keys(t: PathTreeNode) -> bool { t.children is None && t.folder is None && t.wildcards is None && t.files.m() == Map::<Seq<char>, MappingValue>::empty() }
/// one step down, into the child for segment s (created when there is none)
pub proof fn lem_part_step(nf: PathTreeNode, cf: PathTreeNode, n: PathTreeNode, c: PathTreeNode, s: Seq<char>)
    requires !s.contains('/'), nf.folder == n.folder, nf.wildcards == n.wildcards, nf.files == n.files,
        children_of(n).dom().contains(s) ==> c == children_of(n)[s], !children_of(n).dom().contains(s) ==> no_keys(c),
        nf.children is Some, children_of(nf) =~= children_of(n).insert(s, cf),
    ensures part_of(nf, cf, n, c, s.push('/')),
{
    reveal(part_of);
    let pre = s.push('/');
    assert forall|p: Seq<char>, k: KK| #[trigger] tree_get(nf, p, k) == (if is_prefix(pre, p) { tree_get(cf, p.skip(pre.len() as int), k) } else { tree_get(n, p, k) }) by {
        lem_first_at(p, s);
        lemma_first_of(p, '/');
        let a = first_of(p, '/');
        if is_prefix(pre, p) { assert(p.take(a) =~= s); assert(child(nf, s) == Some(cf)); }
        else if a < p.len() { assert(p.take(a) != s); assert(child(nf, p.take(a)) == child(n, p.take(a))); }
        else { assert(leaf_get(nf, p, k) == leaf_get(n, p, k)); }
    }
    assert forall|q: Seq<char>, k: KK| #[trigger] tree_get(c, q, k) == tree_get(n, pre + q, k) by {
        let p = pre + q;
        assert(p.take(pre.len() as int) =~= pre);
        lem_first_at(p, s);
        assert(p.skip(pre.len() as int) =~= q);
        if children_of(n).dom().contains(s) { assert(child(n, s) == Some(c)); }
        else { assert(child(n, p.take(s.len() as int)).is_none()); lem_no_keys(c, q, k); }
    }
}
pub proof fn lem_no_keys(t: PathTreeNode, p: Seq<char>, k: KK) requires no_keys(t), ensures tree_get(t, p, k).is_none() { lemma_first_of(p, '/'); }
/// the tree afterwards: one key set, the others as before
#[verifier::opaque] pub open spec fn set_key(rf: PathTreeNode, r: PathTreeNode, key: (Seq<char>, KK), v: MappingValue) -> bool {
    forall|p: Seq<char>, k: KK| #[trigger] tree_get(rf, p, k) == (if p =~= key.0 && k == key.1 { Some(v) } else { tree_get(r, p, k) })
}
pub proof fn lem_set_at(rf: PathTreeNode, nf: PathTreeNode, r: PathTreeNode, n: PathTreeNode, pre: Seq<char>, key: (Seq<char>, KK), v: MappingValue)
    requires part_of(rf, nf, r, n, pre), set_key(nf, n, key, v),
    ensures set_key(rf, r, (pre + key.0, key.1), v),
{
    reveal(part_of); reveal(set_key);
    assert forall|p: Seq<char>, k: KK| #[trigger] tree_get(rf, p, k) == (if p =~= pre + key.0 && k == key.1 { Some(v) } else { tree_get(r, p, k) }) by {
        let q = p.skip(pre.len() as int);
        if is_prefix(pre, p) {
            assert(pre + q =~= p);
            assert(tree_get(nf, q, k) == (if q =~= key.0 && k == key.1 { Some(v) } else { tree_get(n, q, k) }));
        } else if p =~= pre + key.0 { assert(p.take(pre.len() as int) =~= pre); }
        if p =~= pre + key.0 { assert(q =~= key.0); }
    }
}
/// a key without '/' is stored in the node itself
pub open spec fn leaf_set(nf: PathTreeNode, n: PathTreeNode, key: (Seq<char>, KK), v: MappingValue) -> bool {
    nf.children == n.children && match key.1 {
        KK::Folder => key.0.len() == 0 && nf.folder == Some(v) && nf.wildcards == n.wildcards && nf.files == n.files,
        KK::Wild => nf.folder == n.folder && nf.files == n.files && nf.wildcards is Some && nf.wildcards->Some_0.m() == (match n.wildcards { Some(w) => w.m(), None => Map::empty() }).insert(key.0, v),
        KK::File => nf.folder == n.folder && nf.wildcards == n.wildcards && nf.files.m() == n.files.m().insert(key.0, v),
    }
}
pub proof fn lem_leaf_set(nf: PathTreeNode, n: PathTreeNode, key: (Seq<char>, KK), v: MappingValue)
    requires leaf_set(nf, n, key, v), !key.0.contains('/'),
    ensures set_key(nf, n, key, v),
{
    reveal(set_key);
    lem_no_slash(key.0);
    assert forall|p: Seq<char>, k: KK| #[trigger] tree_get(nf, p, k) == (if p =~= key.0 && k == key.1 { Some(v) } else { tree_get(n, p, k) }) by {
        lemma_first_of(p, '/');
        if first_of(p, '/') < p.len() { assert(p != key.0); } else { assert(leaf_get(nf, p, k) == (if p =~= key.0 && k == key.1 { Some(v) } else { leaf_get(n, p, k) })); }
    }
}
pub proof fn lem_next(path: Seq<char>, l: int, x: Option<usize>)
    requires 0 <= l < path.len(), next_of(path, '/', l, x),
    ensures x is Some ==> !path.subrange(l, x->Some_0 as int).contains('/') && path.take(l) + path.subrange(l, x->Some_0 as int).push('/') =~= path.take(x->Some_0 + 1),
        x is None ==> !path.skip(l).contains('/'),
{
    match x {
        Some(x) => { let s = path.subrange(l, x as int); assert forall|i: int| 0 <= i < s.len() implies s[i] != '/' by {} }
        None => { let s = path.skip(l); assert forall|i: int| 0 <= i < s.len() implies s[i] != '/' by { assert(s[i] == path[l + i]); } }
    }
}
/// the last segment of a key
pub open spec fn last_key(path: Seq<char>, l: int) -> (Seq<char>, KK) { key_of(path.skip(l)) }
pub proof fn lem_last_key(path: Seq<char>, l: int)
    requires 0 <= l <= path.len(), l == path.len() ==> path.len() == 0 || path.last() == '/', !path.skip(l).contains('/'),
    ensures !last_key(path, l).0.contains('/'), (path.take(l) + last_key(path, l).0, last_key(path, l).1) == key_of(path), last_key(path, l).1 is Folder <==> l == path.len(),
{
    let s = path.skip(l);
    if l < path.len() { assert(s.last() == path.last()); assert(s.contains(s.last())); }
    assert(path.take(l) + s =~= path);
    if s.len() > 0 { assert(path.take(l) + s.drop_last() =~= path.drop_last()); assert forall|i: int| 0 <= i < s.drop_last().len() implies s.drop_last()[i] != '/' by { assert(s.contains(s[i])); } }
    else { assert(path.take(l) =~= path); }
}

pub proof fn lem_walk_end(rf: PathTreeNode, nf: PathTreeNode, r: PathTreeNode, n: PathTreeNode, path: Seq<char>, l: int, v: MappingValue)
    requires part_of(rf, nf, r, n, path.take(l)), 0 <= l <= path.len(), l == path.len() ==> path.len() == 0 || path.last() == '/', !path.skip(l).contains('/'),
    ensures leaf_set(nf, n, last_key(path, l), v) ==> set_key(rf, r, key_of(path), v),
{
    lem_last_key(path, l);
    if leaf_set(nf, n, last_key(path, l), v) { lem_leaf_set(nf, n, last_key(path, l), v); lem_set_at(rf, nf, r, n, path.take(l), last_key(path, l), v); }
}
/// cutting a one-byte character off the end
pub proof fn lem_cut(s: Seq<char>) ensures s.len() > 0 && (s.last() as u32) < 0x80 ==> blen(s) >= 1 && is_bnd(s, 0) && is_bnd(s, blen(s) - 1) && bslice(s, 0, blen(s) - 1) == s.drop_last()
{
    if s.len() > 0 && (s.last() as u32) < 0x80 {
        reveal(blen);
        lemma_blen_whole(s);
        assert(s.take(s.len() - 1) =~= s.drop_last());
        lemma_cidx(s, s.len() - 1);
    }
}

// ---------- searching ----------
/// node n is what the tree holds below `pre`
#[verifier::opaque] pub open spec fn below(r: PathTreeNode, n: PathTreeNode, pre: Seq<char>) -> bool { forall|q: Seq<char>, k: KK| #[trigger] tree_get(n, q, k) == tree_get(r, pre + q, k) }
pub proof fn lem_below_self(r: PathTreeNode) ensures below(r, r, Seq::<char>::empty())
{
    reveal(below);
    assert forall|q: Seq<char>, k: KK| #[trigger] tree_get(r, q, k) == tree_get(r, Seq::<char>::empty() + q, k) by { assert(Seq::<char>::empty() + q =~= q); }
}
pub proof fn lem_below_step(r: PathTreeNode, n: PathTreeNode, c: PathTreeNode, pre: Seq<char>, s: Seq<char>)
    requires below(r, n, pre), !s.contains('/'), child(n, s) == Some(c),
    ensures below(r, c, pre + s.push('/')),
{
    reveal(below);
    let x = s.push('/');
    assert forall|q: Seq<char>, k: KK| #[trigger] tree_get(c, q, k) == tree_get(r, (pre + x) + q, k) by {
        let p = x + q;
        assert(p.take(x.len() as int) =~= x);
        lem_first_at(p, s);
        assert(p.skip(x.len() as int) =~= q);
        assert(tree_get(n, p, k) == tree_get(c, q, k));
        assert(pre + p =~= (pre + x) + q);
    }
}
pub proof fn lem_below_leaf(r: PathTreeNode, n: PathTreeNode, pre: Seq<char>, s: Seq<char>, k: KK)
    requires below(r, n, pre), !s.contains('/'),
    ensures tree_get(r, pre + s, k) == leaf_get(n, s, k),
{
    reveal(below); lem_no_slash(s);
    assert(tree_get(n, s, k) == leaf_get(n, s, k));
}
/// nothing is below a segment that has no child
pub proof fn lem_below_dead(r: PathTreeNode, n: PathTreeNode, pre: Seq<char>, s: Seq<char>, rest: Seq<char>, k: KK)
    requires below(r, n, pre), !s.contains('/'), child(n, s) is None,
    ensures tree_get(r, pre + (s.push('/') + rest), k) is None,
{
    reveal(below);
    let p = s.push('/') + rest;
    assert(p.take(s.len() + 1int) =~= s.push('/'));
    lem_first_at(p, s);
    assert(tree_get(n, p, k) is None);
}
pub open spec fn wild_part(t: PathTreeNode, rem: Seq<char>, pos: int, last: Hit, n: int) -> Hit { match t.wildcards { Some(w) => wild_upto(w, rem, pos, last, n), None => last } }
proof fn lem_best_seg_at(r: PathTreeNode, n: PathTreeNode, req: Seq<char>, pos: int, rem: Seq<char>, last: Hit, j: int)
    requires 0 <= pos, pos + rem.len() <= req.len(), rem == req.subrange(pos, pos + rem.len()), !rem.contains('/'), below(r, n, req.take(pos)), last == best_upto(r, req, pos), 0 <= j <= rem.len(),
    ensures best_upto(r, req, pos + j + 1) == wild_part(n, rem, pos, folder_best(n, pos, last), j + 1),
    decreases j
{
    let s = rem.take(j);
    assert forall|i: int| 0 <= i < s.len() implies s[i] != '/' by { assert(rem.contains(rem[i])); }
    assert(!s.contains('/'));
    assert(req.take(pos) + s =~= req.take(pos + j));
    lem_below_leaf(r, n, req.take(pos), s, KK::Wild);
    lem_below_leaf(r, n, req.take(pos), s, KK::Folder);
    if j > 0 { lem_best_seg_at(r, n, req, pos, rem, last, j - 1); }
    else {
        match n.wildcards { Some(w) => { assert(wild_upto(w, rem, pos, folder_best(n, pos, last), 0) == folder_best(n, pos, last)); } None => {} }
    }
}
/// the keys that end within one segment
pub proof fn lem_best_seg(r: PathTreeNode, n: PathTreeNode, req: Seq<char>, pos: int, e: int)
    requires 0 <= pos <= e <= req.len(), !req.subrange(pos, e).contains('/'), below(r, n, req.take(pos)),
    ensures best_upto(r, req, e + 1) == wild_best(n, req.subrange(pos, e), pos, folder_best(n, pos, best_upto(r, req, pos))),
{
    lem_best_seg_at(r, n, req, pos, req.subrange(pos, e), best_upto(r, req, pos), e - pos);
}
pub proof fn lem_best_dead(r: PathTreeNode, n: PathTreeNode, req: Seq<char>, pos: int, e: int, j: int)
    requires 0 <= pos <= e < req.len(), req[e] == '/', !req.subrange(pos, e).contains('/'), below(r, n, req.take(pos)), child(n, req.subrange(pos, e)) is None, e < j <= req.len(),
    ensures best_upto(r, req, j + 1) == best_upto(r, req, e + 1), tree_get(r, req.take(j), KK::File) is None,
    decreases j
{
    let s = req.subrange(pos, e);
    let rest = req.subrange(e + 1, j);
    assert(req.take(pos) + (s.push('/') + rest) =~= req.take(j));
    lem_below_dead(r, n, req.take(pos), s, rest, KK::Wild);
    lem_below_dead(r, n, req.take(pos), s, rest, KK::Folder);
    lem_below_dead(r, n, req.take(pos), s, rest, KK::File);
    if j > e + 1 { lem_best_dead(r, n, req, pos, e, j - 1); }
}
/// what best_match comes down to when the search stops at a segment [pos, e)
pub proof fn lem_best_stop(r: PathTreeNode, n: PathTreeNode, req: Seq<char>, pos: int, e: int)
    requires 0 <= pos <= e < req.len(), req[e] == '/', !req.subrange(pos, e).contains('/'), below(r, n, req.take(pos)), child(n, req.subrange(pos, e)) is None, !bare_files(r),
    ensures best_match(r, req) == wild_best(n, req.subrange(pos, e), pos, folder_best(n, pos, best_upto(r, req, pos))),
{
    lem_best_seg(r, n, req, pos, e);
    lem_best_dead(r, n, req, pos, e, req.len() as int);
    assert(req.take(req.len() as int) =~= req);
}
pub open spec fn bare_files(t: PathTreeNode) -> bool { t.children is None && t.folder is None && t.wildcards is None }
/// ... or at the last segment
pub proof fn lem_best_last(r: PathTreeNode, n: PathTreeNode, req: Seq<char>, pos: int)
    requires 0 <= pos <= req.len(), req.len() > 0, !req.skip(pos).contains('/'), below(r, n, req.take(pos)), !bare_files(r),
    ensures best_match(r, req) == (match im_get(n.files, req.skip(pos)) { Some(v) => Some((v, req.len() + 1int)), None => wild_best(n, req.skip(pos), pos, folder_best(n, pos, best_upto(r, req, pos))) }),
{
    let l = req.len() as int;
    assert(req.subrange(pos, l) =~= req.skip(pos));
    lem_best_seg(r, n, req, pos, l);
    assert(req.take(pos) + req.skip(pos) =~= req);
    lem_below_leaf(r, n, req.take(pos), req.skip(pos), KK::File);
}
/// in a tree of files only, nothing but an exact key can match
pub proof fn lem_best_bare(r: PathTreeNode, req: Seq<char>, j: int)
    requires bare_files(r), 0 <= j <= req.len(),
    ensures best_upto(r, req, j + 1) is None,
    decreases j
{
    let s = req.take(j);
    lemma_first_of(s, '/');
    assert(tree_get(r, s, KK::Wild) is None);
    assert(tree_get(r, s, KK::Folder) is None);
    if j > 0 { lem_best_bare(r, req, j - 1); }
}
/// the longest of the first i patterns that fit
#[verifier::opaque] pub open spec fn wild_pick(w: IndexMap<String, MappingValue>, rem: Seq<char>, pos: int, last: Hit, i: int, h: Hit) -> bool {
    (h == last && forall|k: int| 0 <= k < i ==> !is_prefix((#[trigger] w.e()[k]).0, rem))
    || exists|j: int| 0 <= j < i && is_prefix((#[trigger] w.e()[j]).0, rem) && h == Some((w.e()[j].1, pos + w.e()[j].0.len())) && forall|k: int| 0 <= k < i && is_prefix((#[trigger] w.e()[k]).0, rem) ==> w.e()[k].0.len() <= w.e()[j].0.len()
}
pub proof fn lem_pick_start(w: IndexMap<String, MappingValue>, rem: Seq<char>, pos: int, last: Hit) ensures wild_pick(w, rem, pos, last, 0, last) { reveal(wild_pick); }
pub proof fn lem_pick_step(w: IndexMap<String, MappingValue>, rem: Seq<char>, pos: int, last: Hit, i: int, h: Hit)
    requires wild_pick(w, rem, pos, last, i, h), 0 <= i < w.e().len(), last is Some ==> last->Some_0.1 < pos,
    ensures
        ({ let x = w.e()[i]; let n = pos + x.0.len();
           wild_pick(w, rem, pos, last, i + 1, if is_prefix(x.0, rem) && (h is None || h->Some_0.1 < n) { Some((x.1, n)) } else { h }) }),
        h is Some ==> h->Some_0.1 < pos || pos <= h->Some_0.1 <= pos + rem.len(),
{
    reveal(wild_pick);
    let x = w.e()[i]; let n = pos + x.0.len();
    let h2: Hit = if is_prefix(x.0, rem) && (h is None || h->Some_0.1 < n) { Some((x.1, n)) } else { h };
    if h == last && forall|k: int| 0 <= k < i ==> !is_prefix((#[trigger] w.e()[k]).0, rem) {
        if is_prefix(x.0, rem) { assert(is_prefix(w.e()[i].0, rem)); assert(h2 == Some((w.e()[i].1, n))); }
    } else {
        let j = choose|j: int| 0 <= j < i && is_prefix((#[trigger] w.e()[j]).0, rem) && h == Some((w.e()[j].1, pos + w.e()[j].0.len())) && forall|k: int| 0 <= k < i && is_prefix((#[trigger] w.e()[k]).0, rem) ==> w.e()[k].0.len() <= w.e()[j].0.len();
        if is_prefix(x.0, rem) && x.0.len() > w.e()[j].0.len() { assert(is_prefix(w.e()[i].0, rem) && h2 == Some((w.e()[i].1, n))); }
        else { assert(is_prefix(w.e()[j].0, rem) && h2 == h); }
    }
}
proof fn lem_wild_none(w: IndexMap<String, MappingValue>, rem: Seq<char>, pos: int, last: Hit, lo: int, n: int)
    requires 0 <= lo <= n, forall|m: int| lo <= m < n ==> !w.m().dom().contains(#[trigger] rem.take(m)),
    ensures wild_upto(w, rem, pos, last, n) == wild_upto(w, rem, pos, last, lo),
    decreases n
{
    if n > lo { assert(!w.m().dom().contains(rem.take(n - 1))); lem_wild_none(w, rem, pos, last, lo, n - 1); }
}
pub proof fn lem_pick_end(w: IndexMap<String, MappingValue>, rem: Seq<char>, pos: int, last: Hit, h: Hit)
    requires wild_pick(w, rem, pos, last, w.e().len() as int, h),
    ensures h == wild_upto(w, rem, pos, last, rem.len() + 1int), h is Some && h != last ==> pos <= h->Some_0.1 <= pos + rem.len(),
{
    reveal(wild_pick);
    let l = w.e().len() as int;
    let lo = if h == last && forall|k: int| 0 <= k < l ==> !is_prefix((#[trigger] w.e()[k]).0, rem) { 0int } else {
        let j = choose|j: int| 0 <= j < l && is_prefix((#[trigger] w.e()[j]).0, rem) && h == Some((w.e()[j].1, pos + w.e()[j].0.len())) && forall|k: int| 0 <= k < l && is_prefix((#[trigger] w.e()[k]).0, rem) ==> w.e()[k].0.len() <= w.e()[j].0.len();
        assert(rem.take(w.e()[j].0.len() as int) =~= w.e()[j].0);
        assert(wild_upto(w, rem, pos, last, w.e()[j].0.len() + 1int) == h);
        w.e()[j].0.len() + 1int
    };
    assert forall|m: int| lo <= m < rem.len() + 1 implies !w.m().dom().contains(#[trigger] rem.take(m)) by {
        if w.m().dom().contains(rem.take(m)) {
            let k = choose|k: int| 0 <= k < l && (#[trigger] w.e()[k]).0 == rem.take(m);
            assert(is_prefix(w.e()[k].0, rem));
        }
    }
    lem_wild_none(w, rem, pos, last, lo, rem.len() + 1int);
}
