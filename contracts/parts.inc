// the text before and after the first c, or the text
pub open spec fn halves(s: Seq<char>, c: char) -> Seq<Seq<char>> {
    let k = first(s, is_char(c));
    if 0 <= k < s.len() { seq![s.subrange(0, k), s.subrange(k + 1, s.len() as int)] } else { seq![s] }
}
// TRUSTED: str::split read with next().
pub struct Parts<'a> { v: Vec<&'a str>, i: usize }
impl<'a> Parts<'a> {
    pub uninterp spec fn rem(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new(s: &'a str, c: char) -> (r: Self) ensures r.rem() == splits(s@, c) { unimplemented!() }
    // str::splitn(2, c)
    #[verifier::external_body]
    pub fn halves(s: &'a str, c: char) -> (r: Self) ensures r.rem() == halves(s@, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures
            old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r is Some && (r->0)@ == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
