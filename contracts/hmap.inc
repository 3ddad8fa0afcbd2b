// Header collections as maps from lower-case names to texts.
// TRUSTED (contracts discharged in units headers_map and headers): insert, append and remove.
pub uninterp spec fn htexts(h: &Headers) -> Map<Seq<char>, Seq<Seq<char>>>;
pub broadcast axiom fn axiom_htexts(h: &Headers, n: Seq<char>)
    ensures match #[trigger] header_values(h, n) { Some(v) => htexts(h).dom().contains(n) && htexts(h)[n] == texts(v), None => !htexts(h).dom().contains(n) };
pub open spec fn hvals(m: Map<Seq<char>, Seq<Seq<char>>>, n: Seq<char>) -> Seq<Seq<char>> { if m.dom().contains(n) { m[n] } else { seq![] } }
pub trait NameLike: Sized {
    spec fn good(self) -> bool;
    spec fn name(self) -> Seq<char>;
    fn into(self) -> (r: HeaderName) requires self.good() ensures cowv(r.0) == self.name();
}
impl<'a> NameLike for &'a str {
    open spec fn good(self) -> bool { ascii_chars(self@) }
    open spec fn name(self) -> Seq<char> { lower(self@) }
    #[verifier::external_body]
    fn into(self) -> HeaderName { unimplemented!() }
}
impl NameLike for HeaderName {
    open spec fn good(self) -> bool { true }
    open spec fn name(self) -> Seq<char> { cowv(self.0) }
    fn into(self) -> HeaderName { self }
}
pub trait ValueLike: Sized { spec fn value(self) -> Option<Seq<char>>; }
impl<'a> ValueLike for &'a str { open spec fn value(self) -> Option<Seq<char>> { if ascii_chars(self@) { Some(self@) } else { None } } }
impl ValueLike for String { open spec fn value(self) -> Option<Seq<char>> { if ascii_chars(self@) { Some(self@) } else { None } } }
impl ValueLike for HeaderValue { open spec fn value(self) -> Option<Seq<char>> { Some(self.inner@) } }
impl Headers {
    #[verifier::external_body]
    pub fn insert<N: NameLike, V: ValueLike>(&mut self, name: N, value: V) -> (r: CrateResult<Option<HeaderValues>>)
        requires name.good(),
        ensures match value.value() {
            Some(t) => r is Ok && htexts(final(self)) == htexts(old(self)).insert(name.name(), seq![t]),
            None => r is Err && htexts(final(self)) == htexts(old(self)),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn append<N: NameLike, V: ValueLike>(&mut self, name: N, value: V) -> (r: CrateResult<()>)
        requires name.good(),
        ensures match value.value() {
            Some(t) => r is Ok && htexts(final(self)) == htexts(old(self)).insert(name.name(), hvals(htexts(old(self)), name.name()).push(t)),
            None => r is Err && htexts(final(self)) == htexts(old(self)),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<N: NameLike>(&mut self, name: N) -> (r: Option<HeaderValues>)
        requires name.good(),
        ensures htexts(final(self)) == htexts(old(self)).remove(name.name()),
    { unimplemented!() }
}
impl HeaderName {
    #[verifier::external_body]
    pub fn from_lowercase_str(s: &'static str) -> (r: HeaderName) ensures r.name() == s@ { unimplemented!() }
}
#[verifier::external]
impl Debug for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
