// ---------- requests ----------
pub open spec fn kind_of(t: Seq<char>) -> PathKind {
    if t.len() == 0 { PathKind::Relative }
    else if t[0] == '#' { PathKind::Internal }
    else if t[0] == '/' { PathKind::AbsolutePosix }
    else if t =~= seq!['.'] || is_prefix(seq!['.', '/'], t) || is_prefix(seq!['.', '.', '/'], t) || t =~= seq!['.', '.'] { PathKind::Relative }
    else if is_drive(t) { PathKind::AbsoluteWin }
    else { PathKind::Normal }
}
pub open spec fn is_letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn is_drive(t: Seq<char>) -> bool { t.len() >= 2 && is_letter(t[0]) && t[1] == ':' && (t.len() == 2 || t[2] == '/' || t[2] == '\\') }

/// position of the fragment: the first '#' that is not the first character (or the end)
pub open spec fn frag_at(s: Seq<char>) -> int { if s.len() == 0 { 0 } else { 1 + first_of(s.skip(1), '#') } }
/// position of the query: the first '?' before the fragment (or the fragment)
pub open spec fn query_at(s: Seq<char>) -> int { first_of(s.take(frag_at(s)), '?') }
pub open spec fn target_of(s: Seq<char>) -> Seq<char> { s.take(query_at(s)) }
pub open spec fn query_of(s: Seq<char>) -> Seq<char> { s.subrange(query_at(s), frag_at(s)) }
pub open spec fn fragment_of(s: Seq<char>) -> Seq<char> { s.skip(frag_at(s)) }
