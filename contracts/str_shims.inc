// Text as a sequence of characters; byte offsets as std counts them (UTF-8).
pub open spec fn clen(c: char) -> int {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
pub open spec fn off(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { off(s, k - 1) + clen(s[k - 1]) } }
// n is the byte offset of character k
pub open spec fn at(s: Seq<char>, n: int, k: int) -> bool { 0 <= k <= s.len() && off(s, k) == n }
pub open spec fn boundary(s: Seq<char>, n: int) -> bool { exists|k: int| #[trigger] at(s, n, k) }
pub open spec fn is_char(d: char) -> spec_fn(char) -> bool { |c: char| c == d }
pub open spec fn in_set(d: Seq<char>) -> spec_fn(char) -> bool { |c: char| d.contains(c) }
// first position satisfying p, or the length
pub open spec fn first(s: Seq<char>, p: spec_fn(char) -> bool) -> int decreases s.len() {
    if s.len() == 0 || p(s[0]) { 0 } else { 1 + first(s.drop_first(), p) }
}
pub open spec fn trimmed_start(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() {
    if s.len() > 0 && p(s[0]) { trimmed_start(s.drop_first(), p) } else { s }
}
pub open spec fn trimmed_end(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() {
    if s.len() > 0 && p(s.last()) { trimmed_end(s.drop_last(), p) } else { s }
}
// std's notion of white space (char::is_whitespace); only its ASCII part is pinned down.
pub uninterp spec fn white(c: char) -> bool;
pub open spec fn is_white() -> spec_fn(char) -> bool { |c: char| white(c) }
pub broadcast axiom fn axiom_white(c: char)
    ensures (c as u32) < 0x80 ==> (#[trigger] white(c) == (c == ' ' || ('\t' <= c && c <= '\r')));
pub proof fn lemma_off_mono(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures off(s, a) + (b - a) <= off(s, b), off(s, a) <= off(s, b),
    decreases b - a,
{
    if a < b { lemma_off_mono(s, a, b - 1); }
}
pub proof fn lemma_first(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures
        0 <= first(s, p) <= s.len(),
        forall|j: int| 0 <= j < first(s, p) ==> !p(#[trigger] s[j]),
        first(s, p) < s.len() ==> p(s[first(s, p)]),
    decreases s.len(),
{
    if s.len() > 0 && !p(s[0]) {
        lemma_first(s.drop_first(), p);
        assert forall|j: int| 0 <= j < first(s, p) implies !p(#[trigger] s[j]) by { if j > 0 { assert(s[j] == s.drop_first()[j - 1]); } }
    }
}
pub proof fn lemma_first_is(s: Seq<char>, p: spec_fn(char) -> bool, k: int)
    requires
        0 <= k <= s.len(),
        forall|j: int| 0 <= j < k ==> !p(#[trigger] s[j]),
        k < s.len() ==> p(s[k]),
    ensures first(s, p) == k,
    decreases k,
{
    lemma_first(s, p);
    if first(s, p) < k { assert(!p(s[first(s, p)])); }
    if k < first(s, p) { assert(!p(s[k])); }
}
// TRUSTED: std's str slicing and searching, as operations on byte offsets. The preconditions are
// what std panics without.
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == off(s@, s@.len() as int) { s.len() }
#[verifier::external_body]
pub fn str_from(s: &str, n: usize) -> (r: &str)
    requires boundary(s@, n as int),
    ensures boundary(s@, n as int), forall|k: int| #[trigger] at(s@, n as int, k) ==> r@ == s@.subrange(k, s@.len() as int),
{ &s[n..] }
#[verifier::external_body]
pub fn str_to(s: &str, n: usize) -> (r: &str)
    requires boundary(s@, n as int),
    ensures forall|k: int| #[trigger] at(s@, n as int, k) ==> r@ == s@.subrange(0, k),
{ &s[..n] }
#[verifier::external_body]
pub fn str_range(s: &str, m: usize, n: usize) -> (r: &str)
    requires boundary(s@, m as int), boundary(s@, n as int), m <= n,
    ensures forall|j: int, k: int| #[trigger] at(s@, m as int, j) && #[trigger] at(s@, n as int, k) ==> r@ == s@.subrange(j, k),
{ &s[m..n] }
#[verifier::external_body]
pub fn str_split_at(s: &str, n: usize) -> (r: (&str, &str))
    requires boundary(s@, n as int),
    ensures forall|k: int| #[trigger] at(s@, n as int, k) ==> r.0@ == s@.subrange(0, k) && r.1@ == s@.subrange(k, s@.len() as int),
{ s.split_at(n) }
#[verifier::external_body]
pub fn str_find_char(s: &str, c: char) -> (r: Option<usize>)
    ensures match r {
        Some(n) => first(s@, is_char(c)) < s@.len() && at(s@, n as int, first(s@, is_char(c))),
        None => first(s@, is_char(c)) == s@.len(),
    },
{ s.find(c) }
#[verifier::external_body]
pub fn str_find_any(s: &str, cs: &[char]) -> (r: Option<usize>)
    ensures match r {
        Some(n) => first(s@, in_set(cs@)) < s@.len() && at(s@, n as int, first(s@, in_set(cs@))),
        None => first(s@, in_set(cs@)) == s@.len(),
    },
{ s.find(cs) }
#[verifier::external_body]
pub fn str_starts_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
pub fn str_strip_prefix_char(s: &str, c: char) -> (r: Option<&str>)
    ensures match r {
        Some(t) => s@.len() > 0 && s@[0] == c && t@ == s@.subrange(1, s@.len() as int),
        None => s@.len() == 0 || s@[0] != c,
    },
{ s.strip_prefix(c) }
#[verifier::external_body]
pub fn str_trim_start(s: &str) -> (r: &str) ensures r@ == trimmed_start(s@, is_white()) { s.trim_start() }
#[verifier::external_body]
pub fn str_trim_end(s: &str) -> (r: &str) ensures r@ == trimmed_end(s@, is_white()) { s.trim_end() }
#[verifier::external_body]
pub fn str_trim(s: &str) -> (r: &str) ensures r@ == trimmed_start(trimmed_end(s@, is_white()), is_white()) { s.trim() }
#[verifier::external_body]
pub fn str_trim_start_by<F: Fn(char) -> bool>(s: &str, f: F, Ghost(p): Ghost<spec_fn(char) -> bool>) -> (r: &str)
    requires forall|c: char| f.requires((c,)), forall|c: char, b: bool| f.ensures((c,), b) ==> b == p(c),
    ensures r@ == trimmed_start(s@, p),
{ s.trim_start_matches(|c| f(c)) }
#[verifier::external_body]
pub fn str_trim_end_by<F: Fn(char) -> bool>(s: &str, f: F, Ghost(p): Ghost<spec_fn(char) -> bool>) -> (r: &str)
    requires forall|c: char| f.requires((c,)), forall|c: char, b: bool| f.ensures((c,), b) ==> b == p(c),
    ensures r@ == trimmed_end(s@, p),
{ s.trim_end_matches(|c| f(c)) }
#[verifier::external_body]
pub fn str_trim_by<F: Fn(char) -> bool>(s: &str, f: F, Ghost(p): Ghost<spec_fn(char) -> bool>) -> (r: &str)
    requires forall|c: char| f.requires((c,)), forall|c: char, b: bool| f.ensures((c,), b) ==> b == p(c),
    ensures r@ == trimmed_end(trimmed_start(s@, p), p),
{ s.trim_matches(|c| f(c)) }
