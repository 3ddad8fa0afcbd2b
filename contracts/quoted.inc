// Quoted strings (RFC 7230 3.2.6): what one is, what it stands for, and how a text is written as one.
pub open spec fn suf(s: Seq<char>, k: int) -> Seq<char> { s.subrange(k, s.len() as int) }
pub open spec fn cowt<'a>(c: Cow<'a, str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
#[verifier::external_body]
pub fn cow_borrowed<'a>(s: &'a str) -> (r: Cow<'a, str>) ensures cowt(r) == s@ { Cow::Borrowed(s) }
#[verifier::external_body]
pub fn cow_owned<'a>(s: String) -> (r: Cow<'a, str>) ensures cowt(r) == s@ { Cow::Owned(s) }
pub open spec fn qdtext(c: char) -> bool {
    c == '\t' || c == ' ' || c == '!' || (0x23 <= c as u32 && c as u32 <= 0x5B) || (0x5D <= c as u32 && c as u32 <= 0x7E) || c as u32 >= 0x80
}
pub open spec fn escapable(c: char) -> bool { c == '\t' || (0x20 <= c as u32 && c as u32 <= 0x7E) || c as u32 >= 0x80 }
// text after an opening quote: length up to and including the closing quote
pub open spec fn scan(s: Seq<char>) -> Option<int> decreases s.len() {
    if s.len() == 0 { None }
    else if s[0] == '"' { Some(1int) }
    else if s[0] == '\\' {
        if s.len() >= 2 && escapable(s[1]) { match scan(suf(s, 2)) { Some(n) => Some(n + 2), None => None } } else { None }
    }
    else if qdtext(s[0]) { match scan(suf(s, 1)) { Some(n) => Some(n + 1), None => None } }
    else { None }
}
// the content of a quoted string whose quotes were removed
pub open spec fn unescape(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if s[0] == '\\' && s.len() >= 2 { seq![s[1]] + unescape(suf(s, 2)) }
    else { seq![s[0]] + unescape(suf(s, 1)) }
}
pub open spec fn quoted(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if s.len() > 0 && s[0] == '"' {
        match scan(suf(s, 1)) { Some(n) => Some((unescape(s.subrange(1, n)), suf(s, n + 1))), None => None }
    } else { None }
}
pub open spec fn esc_char(c: char) -> Seq<char> { if c == '\\' || c == '"' { seq!['\\', c] } else { seq![c] } }
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { esc_char(s[0]) + esc(suf(s, 1)) } }
pub proof fn lemma_esc_push(a: Seq<char>, c: char)
    ensures esc(a.push(c)) == esc(a) + esc_char(c),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(suf(a.push(c), 1) =~= seq![]);
        assert(esc(suf(a.push(c), 1)) =~= seq![]);
        assert(esc(a) + esc_char(c) =~= esc_char(c));
        assert(esc_char(c) + seq![] =~= esc_char(c));
    } else {
        lemma_esc_push(suf(a, 1), c);
        assert(suf(a.push(c), 1) =~= suf(a, 1).push(c));
        assert(esc_char(a[0]) + (esc(suf(a, 1)) + esc_char(c)) =~= (esc_char(a[0]) + esc(suf(a, 1))) + esc_char(c));
    }
}
pub open spec fn printable(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> escapable(#[trigger] s[i]) }
pub proof fn lemma_esc_scan(s: Seq<char>, t: Seq<char>)
    requires printable(s),
    ensures scan(esc(s) + seq!['"'] + t) == Some(esc(s).len() as int + 1), unescape(esc(s)) == s,
    decreases s.len(),
{
    let all = esc(s) + seq!['"'] + t;
    if s.len() == 0 { assert(all[0] == '"'); assert(unescape(esc(s)) =~= s); }
    else {
        let c = s[0];
        let u = suf(s, 1);
        assert(escapable(c));
        assert forall|i: int| 0 <= i < u.len() implies escapable(#[trigger] u[i]) by { assert(u[i] == s[i + 1]); }
        lemma_esc_scan(u, t);
        assert(seq![c] + u =~= s);
        if c == '\\' || c == '"' {
            assert(all[0] == '\\' && all[1] == c);
            assert(suf(all, 2) =~= esc(u) + seq!['"'] + t);
            assert(suf(esc(s), 2) =~= esc(u));
            assert(esc(s)[0] == '\\' && esc(s)[1] == c);
        } else {
            assert(all[0] == c);
            assert(suf(all, 1) =~= esc(u) + seq!['"'] + t);
            assert(suf(esc(s), 1) =~= esc(u));
            assert(esc(s)[0] == c);
        }
    }
}
