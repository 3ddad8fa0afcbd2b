// Comma-separated lists over several header lines.
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trimmed_start(trimmed_end(s, is_white()), is_white()) }
pub open spec fn splits(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    let k = first(s, is_char(c));
    if 0 <= k < s.len() { seq![s.subrange(0, k)] + splits(s.subrange(k + 1, s.len() as int), c) } else { seq![s] }
}
pub proof fn lemma_splits(s: Seq<char>, c: char)
    ensures splits(s, c).len() >= 1, splits(s, c)[0] == s.subrange(0, first(s, is_char(c))),
    decreases s.len(),
{
    lemma_first(s, is_char(c));
    if first(s, is_char(c)) == s.len() { assert(s.subrange(0, s.len() as int) =~= s); }
}
// TRUSTED: str::split on one character.
#[verifier::external_body]
pub fn str_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == splits(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == splits(s@, c)[i],
{ s.split(c).collect() }
pub open spec fn fold<A, P>(xs: Seq<P>, n: int, acc: A, f: spec_fn(A, P) -> A) -> A decreases n {
    if n <= 0 { acc } else { f(fold(xs, n - 1, acc, f), xs[n - 1]) }
}
// steps that keep a failure
pub open spec fn strict<A, P>(f: spec_fn(Option<A>, P) -> Option<A>) -> bool { forall|p: P| #[trigger] f(None, p) is None }
pub proof fn lemma_fold_none<A, P>(xs: Seq<P>, k: int, n: int, acc: Option<A>, f: spec_fn(Option<A>, P) -> Option<A>)
    requires strict(f), 0 <= k <= n, fold(xs, k, acc, f) is None,
    ensures fold(xs, n, acc, f) is None,
    decreases n,
{
    if k < n { lemma_fold_none(xs, k, n - 1, acc, f); assert(f(None, xs[n - 1]) is None); }
}
pub open spec fn texts(v: Seq<HeaderValue>) -> Seq<Seq<char>> { v.map_values(|x: HeaderValue| x.inner@) }
// the elements of every line of the header, read in order
pub open spec fn line<A>(f: spec_fn(Option<A>, Seq<char>) -> Option<A>, c: char) -> spec_fn(Option<A>, Seq<char>) -> Option<A> {
    |acc: Option<A>, v: Seq<char>| fold(splits(v, c), splits(v, c).len() as int, acc, f)
}
// TRUSTED (contract discharged in unit headers_map): the values stored under a header name.
pub uninterp spec fn header_values(h: &Headers, name: Seq<char>) -> Option<Seq<HeaderValue>>;
#[verifier::external_body]
pub fn header_get<'a>(h: &'a Headers, name: &str) -> (r: Option<&'a Vec<HeaderValue>>)
    ensures match header_values(h, name@) { Some(v) => r is Some && r->0@ == v && v.len() > 0, None => r is None },
{ unimplemented!() }
