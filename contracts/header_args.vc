//@ # P04: what can be given as a header or as values, and what it stands for.
use std::borrow::Cow;
use std::collections::HashMap;
//@ include head.inc
//@ include header_types.inc
//@ item src/headers/header_name.rs struct HeaderName #[derive(PartialEq, Eq, Hash, Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ item src/headers/header_value.rs struct HeaderValue
//@ item src/headers/header_values.rs struct HeaderValues
//@ item src/headers/headers.rs struct Headers
pub open spec fn texts(v: Seq<HeaderValue>) -> Seq<Seq<char>> { v.map_values(|x: HeaderValue| x.inner@) }
impl Clone for HeaderValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: HeaderValue) ensures r == *self { HeaderValue { inner: self.inner.clone() } }
}
// The values an argument yields, as one list.
// TRUSTED: Some(x).into_iter() yields x alone; cloned() yields what it is given; boxing an error as an io::Error keeps it an error.
#[verifier::external_body]
pub struct Yielded { v: Vec<HeaderValue> }
impl View for Yielded { type V = Seq<HeaderValue>; uninterp spec fn view(&self) -> Seq<HeaderValue>; }
#[verifier::external_body]
pub fn one(v: HeaderValue) -> (r: Yielded) ensures r@ == seq![v] { unimplemented!() }
#[verifier::external_body]
pub fn cloned(v: &HeaderValues) -> (r: Yielded) ensures r@ == v.inner@ { unimplemented!() }
#[verifier::external_body]
pub fn cloned_slice(v: &[HeaderValue]) -> (r: Yielded) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn as_io(e: Error) -> (r: Error) { unimplemented!() }
#[verifier::external_body]
pub fn cow_as_ref<'a>(c: &'a Cow<'static, str>) -> (r: &'a str) ensures r@ == cowv(*c) { unimplemented!() }
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }

//@ fn src/headers/header_value.rs HeaderValue::from_bytes
//@ ret r
ensures
    r is Ok <==> ascii_bytes(bytes@),
    r matches Ok(v) ==> v.inner@ == chars_of(bytes@),
//@ end
//@ impl src/headers/header_value.rs <HeaderValue as FromStr>
//@ fn src/headers/header_value.rs from_str
//@ ret r
ensures
    r is Ok <==> ascii_chars(s@),
    r matches Ok(v) ==> v.inner@ == s@,
//@ at start
proof { axiom_string_from(); }
//@ end
//@ endimpl
impl HeaderName {
//@ fn src/headers/header_name.rs <HeaderName as FromStr>::from_str
//@ bare
//@ ret r
ensures
    r is Ok <==> ascii_chars(s@),
    r matches Ok(n) ==> cowv(n.0) == lower(s@),
//@ rewrite "Result<Self, Self::Err>" => "Result<Self, Error>"
//@ end
//@ fn src/headers/header_name.rs <HeaderName as From<&'a str>>::from
//@ bare
//@ ret r
requires ascii_chars(value@),
ensures cowv(r.0) == lower(value@),
//@ rewrite "&'a str" => "&str"
//@ rewrite "Self::from_str(value)" => "HeaderName::from_str(value).ok()"
//@ end
//@ fn src/headers/header_name.rs <HeaderName as From<T>>::from
//@ bare
//@ rename from_header
//@ ret r
requires header.fits(),
ensures cowv(r.0) == header.hname(),
//@ rewrite "header: T" => "header: impl Header"
//@ end
}

// TRUSTED (contracts discharged in units headers_map): insertion replaces the values of that name alone.
pub uninterp spec fn htexts(h: &Headers) -> Map<Seq<char>, Seq<Seq<char>>>;
pub trait Values {
    // None: refused
    spec fn denoted(&self) -> Option<Seq<Seq<char>>>;
    fn to_header_values(&self) -> (r: Result<Yielded, Error>)
        ensures r is Ok <==> self.denoted() is Some, r matches Ok(y) ==> texts(y@) == self.denoted()->0;
}
impl Headers {
    #[verifier::external_body]
    pub fn insert<V: Values>(&mut self, name: HeaderName, values: V) -> (r: Result<Option<HeaderValues>, Error>)
        ensures match values.denoted() {
            Some(t) => r is Ok && htexts(final(self)) == htexts(old(self)).insert(cowv(name.0), t),
            None => r is Err && htexts(final(self)) == htexts(old(self)),
        },
    { unimplemented!() }
}
pub trait Header {
    spec fn fits(&self) -> bool;
    spec fn hname(&self) -> Seq<char>;
    spec fn hvalue(&self) -> Seq<char>;
    fn header_name(&self) -> (r: HeaderName) requires self.fits() ensures cowv(r.0) == self.hname();
    fn header_value(&self) -> (r: HeaderValue) requires self.fits() ensures r.inner@ == self.hvalue();
//@ fn src/headers/header.rs Header::apply_header
//@ novis
requires self.fits(),
ensures htexts(final(headers)) == htexts(old(headers)).insert(self.hname(), seq![self.hvalue()]),
//@ rewrite "apply_header<H: AsMut<Headers>>" => "apply_header"
//@ rewrite "mut headers: H" => "headers: &mut Headers"
//@ rewrite "headers.as_mut()" => "headers"
//@ rewrite ".unwrap()" => ".ok().unwrap()"
//@ at start
proof { assert forall|v: HeaderValue| #[trigger] texts(seq![v]) == seq![v.inner@] by { assert(texts(seq![v]) =~= seq![v.inner@]); } }
//@ end
}
impl<'a, 'b> Header for (&'a str, &'b str) {
    open spec fn fits(&self) -> bool { ascii_chars(self.0@) && ascii_chars(self.1@) }
    open spec fn hname(&self) -> Seq<char> { lower(self.0@) }
    open spec fn hvalue(&self) -> Seq<char> { self.1@ }
//@ fn src/headers/header.rs <(&'a str, &'b str) as Header>::header_name
//@ bare
//@ novis
//@ end
//@ fn src/headers/header.rs <(&'a str, &'b str) as Header>::header_value
//@ bare
//@ novis
//@ rewrite "self.1.to_owned()" => "owned(self.1)"
//@ rewrite ".expect(" => ".ok().expect("
//@ at start
broadcast use axiom_utf8_ascii;
//@ end
}
impl<'a, T: Header> Header for &'a T {
    open spec fn fits(&self) -> bool { (**self).fits() }
    open spec fn hname(&self) -> Seq<char> { (**self).hname() }
    open spec fn hvalue(&self) -> Seq<char> { (**self).hvalue() }
//@ fn src/headers/header.rs <&'a T as Header>::header_name
//@ bare
//@ novis
//@ rewrite "self.deref()" => "(**self)"
//@ end
//@ fn src/headers/header.rs <&'a T as Header>::header_value
//@ bare
//@ novis
//@ rewrite "self.deref()" => "(**self)"
//@ end
}
// --- the arguments
pub open spec fn text_value(s: Seq<char>) -> Option<Seq<Seq<char>>> { if ascii_chars(s) { Some(seq![s]) } else { None } }
pub struct Typed<T: Header>(pub T);
impl<T: Header> Typed<T> {
//@ fn src/headers/to_header_values.rs <T as ToHeaderValues>::to_header_values
//@ bare
//@ ret r
requires self.0.fits(),
ensures r is Ok, texts(r->Ok_0@) == seq![self.0.hvalue()],
//@ rewrite "Self::Iter" => "Yielded"
//@ rewrite "Some(self.header_value()).into_iter()" => "one(self.0.header_value())"
//@ at start
proof { assert forall|v: HeaderValue| #[trigger] texts(seq![v]) == seq![v.inner@] by { assert(texts(seq![v]) =~= seq![v.inner@]); } }
//@ end
}
impl Values for HeaderValue {
    open spec fn denoted(&self) -> Option<Seq<Seq<char>>> { Some(texts(seq![*self])) }
//@ fn src/headers/to_header_values.rs <HeaderValue as ToHeaderValues>::to_header_values
//@ bare
//@ novis
//@ rewrite "Self::Iter" => "Yielded"
//@ rewrite "Some(self.clone()).into_iter()" => "one(self.clone())"
//@ end
}
impl<'a> Values for &'a HeaderValues {
    open spec fn denoted(&self) -> Option<Seq<Seq<char>>> { Some(texts(self.inner@)) }
//@ fn src/headers/to_header_values.rs <&'a HeaderValues as ToHeaderValues>::to_header_values
//@ bare
//@ novis
//@ rewrite "Self::Iter" => "Yielded"
//@ rewrite "self.iter().cloned()" => "cloned(self)"
//@ end
}
impl<'a> Values for &'a [HeaderValue] {
    open spec fn denoted(&self) -> Option<Seq<Seq<char>>> { Some(texts(self@)) }
//@ fn src/headers/to_header_values.rs <&'a [HeaderValue] as ToHeaderValues>::to_header_values
//@ bare
//@ novis
//@ rewrite "Self::Iter" => "Yielded"
//@ rewrite "self.iter().cloned()" => "cloned_slice(self)"
//@ end
}
impl<'a> Values for &'a str {
    open spec fn denoted(&self) -> Option<Seq<Seq<char>>> { text_value(self@) }
//@ fn src/headers/to_header_values.rs <&'a str as ToHeaderValues>::to_header_values
//@ bare
//@ novis
//@ rewrite "Self::Iter" => "Yielded"
//@ rewrite "self\n            .parse()" => "<HeaderValue as FromStr>::from_str(self)"
//@ rewrite "io::Error::new(io::ErrorKind::Other, err)" => "as_io(err)"
//@ rewrite "Some(value).into_iter()" => "one(value)"
//@ closure 0 types="Error" ret="y: Error"
ensures true,
//@ at start
proof { assert forall|v: HeaderValue| #[trigger] texts(seq![v]) == seq![v.inner@] by { assert(texts(seq![v]) =~= seq![v.inner@]); } }
//@ end
}
impl Values for String {
    open spec fn denoted(&self) -> Option<Seq<Seq<char>>> { text_value(self@) }
//@ fn src/headers/to_header_values.rs <String as ToHeaderValues>::to_header_values
//@ bare
//@ novis
//@ rewrite "Self::Iter" => "Yielded"
//@ end
}
impl<'a> Values for &'a String {
    open spec fn denoted(&self) -> Option<Seq<Seq<char>>> { text_value((**self)@) }
//@ fn src/headers/to_header_values.rs <&String as ToHeaderValues>::to_header_values
//@ bare
//@ novis
//@ rewrite "Self::Iter" => "Yielded"
//@ end
}
impl Values for Cow<'static, str> {
    open spec fn denoted(&self) -> Option<Seq<Seq<char>>> { text_value(cowv(*self)) }
//@ fn src/headers/to_header_values.rs <Cow<'_, str> as ToHeaderValues>::to_header_values
//@ bare
//@ novis
//@ rewrite "Self::Iter" => "Yielded"
//@ rewrite "self.as_ref()" => "cow_as_ref(self)"
//@ end
}
}
fn main() {}
