use std::borrow::Cow;
//@ item src/headers/header_name.rs struct HeaderName
pub uninterp spec fn cow_text(c: Cow<'static, str>) -> Seq<char>;
pub broadcast axiom fn axiom_borrowed(s: &'static str) ensures #[trigger] cow_text(Cow::Borrowed(s)) == s@;
impl HeaderName { pub closed spec fn text(&self) -> Seq<char> { cow_text(self.0) } }
//@ fn src/headers/header_name.rs HeaderName::from_lowercase_str
//@ ret r
ensures r.text() == str@,
//@ at start
broadcast use axiom_borrowed;
//@ end
