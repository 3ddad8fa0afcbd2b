//@ # P20: conversion to and from the `http` crate.
//@ include message_types.inc
//@ include status_spec.inc
//@ include urls.inc
//@ item src/method.rs enum Method #[derive(Clone, Copy)]
//@ include method_names.inc
// Texts http accepts as a method: at least upper-case letters and hyphens.
pub open spec fn plain(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 'A' <= #[trigger] s[i] <= 'Z' || s[i] == '-' }
pub proof fn lemma_method_plain(m: Method)
    ensures plain(method_name(m)),
{
    reveal_strlit("ACL");
    reveal_strlit("BASELINE-CONTROL");
    reveal_strlit("BIND");
    reveal_strlit("CHECKIN");
    reveal_strlit("CHECKOUT");
    reveal_strlit("CONNECT");
    reveal_strlit("COPY");
    reveal_strlit("DELETE");
    reveal_strlit("GET");
    reveal_strlit("HEAD");
    reveal_strlit("LABEL");
    reveal_strlit("LINK");
    reveal_strlit("LOCK");
    reveal_strlit("MERGE");
    reveal_strlit("MKACTIVITY");
    reveal_strlit("MKCALENDAR");
    reveal_strlit("MKCOL");
    reveal_strlit("MKREDIRECTREF");
    reveal_strlit("MKWORKSPACE");
    reveal_strlit("MOVE");
    reveal_strlit("OPTIONS");
    reveal_strlit("ORDERPATCH");
    reveal_strlit("PATCH");
    reveal_strlit("POST");
    reveal_strlit("PRI");
    reveal_strlit("PROPFIND");
    reveal_strlit("PROPPATCH");
    reveal_strlit("PUT");
    reveal_strlit("REBIND");
    reveal_strlit("REPORT");
    reveal_strlit("SEARCH");
    reveal_strlit("TRACE");
    reveal_strlit("UNBIND");
    reveal_strlit("UNCHECKOUT");
    reveal_strlit("UNLINK");
    reveal_strlit("UNLOCK");
    reveal_strlit("UPDATE");
    reveal_strlit("UPDATEREDIRECTREF");
    reveal_strlit("VERSION-CONTROL");
}
// TRUSTED: what http accepts as a header name is ASCII; and the bytes it accepts as a header value.
pub uninterp spec fn token(s: Seq<char>) -> bool;
pub axiom fn lemma_token_ascii()
    ensures forall|s: Seq<char>| #[trigger] token(s) ==> ascii_chars(s);
pub open spec fn sendable(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 9 || b[i] >= 32 && b[i] != 127 }
// TRUSTED stand-in for the http crate, by its documented behaviour.
pub mod http {
    use vstd::prelude::*;
    use super::{plain, token, sendable, lower, utf8, chars_of, code_num, Show};
    verus! {
    #[verifier::external_body]
    pub struct Method { x: u8 }
    pub struct Refused { pub x: u8 }
    #[verifier::external]
    impl std::fmt::Debug for Refused { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
    #[verifier::external]
    impl std::fmt::Display for Refused { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
    impl Method {
        pub uninterp spec fn text(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
        #[verifier::external_body]
        pub fn from_str(s: &str) -> (r: Result<Method, Refused>) ensures plain(s@) ==> r is Ok && (r->Ok_0).text() == s@ { unimplemented!() }
    }
    // a number of three digits
    #[derive(Clone, Copy)]
    pub struct StatusCode { pub n: u16 }
    impl StatusCode {
        pub fn as_u16(&self) -> (r: u16) ensures r == self.n { self.n }
        #[verifier::external_body]
        pub fn from_u16(n: u16) -> (r: Result<StatusCode, Refused>) ensures 100 <= n < 1000 ==> r == Ok::<StatusCode, Refused>(StatusCode { n }), !(100 <= n < 1000) ==> r is Err { unimplemented!() }
    }
    #[derive(Clone, Copy)]
    #[allow(non_camel_case_types)]
    pub enum Version { HTTP_09, HTTP_10, HTTP_11, HTTP_2, HTTP_3 }
    pub mod header {
        use vstd::prelude::*;
        use super::super::{token, sendable, lower, utf8, chars_of, ascii_bytes};
        use super::Refused;
        verus! {
        #[verifier::external_body]
        pub struct HeaderName { x: u8 }
        #[verifier::external_body]
        pub struct HeaderValue { x: u8 }
        impl HeaderName {
            pub uninterp spec fn text(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn as_str(&self) -> (r: &str) ensures r@ == self.text(), token(self.text()), lower(self.text()) == self.text() { unimplemented!() }
            #[verifier::external_body]
            pub fn from_bytes(b: &[u8]) -> (r: Result<HeaderName, Refused>)
                ensures r is Ok <==> ascii_bytes(b@) && token(chars_of(b@)), r matches Ok(n) ==> n.text() == lower(chars_of(b@)) { unimplemented!() }
        }
        impl HeaderValue {
            pub uninterp spec fn bytes(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
            #[verifier::external_body]
            pub fn from_bytes(b: &[u8]) -> (r: Result<HeaderValue, Refused>)
                ensures r is Ok <==> sendable(b@), r matches Ok(v) ==> v.bytes() == b@ { unimplemented!() }
        }
        }
    }
    #[verifier::external_body]
    pub struct HeaderMap { x: u8 }
    impl HeaderMap {
        // the values under a name, in order
        pub uninterp spec fn values(&self, n: Seq<char>) -> Seq<Seq<u8>>;
        #[verifier::external_body]
        pub fn new() -> (r: HeaderMap) ensures forall|n: Seq<char>| #[trigger] r.values(n) == Seq::<Seq<u8>>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn append(&mut self, n: &header::HeaderName, v: header::HeaderValue) -> (r: bool)
            ensures forall|m: Seq<char>| #[trigger] final(self).values(m) == if m == n.text() { old(self).values(m).push(v.bytes()) } else { old(self).values(m) } { unimplemented!() }
    }
    // what Uri reads of a text, and the text it writes
    #[verifier::external_body]
    pub struct Uri { x: u8 }
    impl Uri {
        pub uninterp spec fn text(&self) -> Seq<char>;
        pub uninterp spec fn read(s: Seq<char>) -> Option<Uri>;
        #[verifier::external_body]
        pub fn try_from(s: &String) -> (r: Result<Uri, Refused>) ensures match Uri::read(s@) { Some(u) => r == Ok::<Uri, Refused>(u), None => r is Err } { unimplemented!() }
    }
    impl Show for Uri { open spec fn shown(&self) -> Seq<char> { self.text() } }
    impl Version {
        // the default is HTTP/1.1
        pub fn vx_default() -> (r: Version) ensures r is HTTP_11 { Version::HTTP_11 }
    }
    // messages and their builders are their parts
    pub struct Request<T> { pub head: request::Parts, pub content: T }
    impl<T> Request<T> {
        #[verifier::external_body]
        pub fn into_parts(self) -> (r: (request::Parts, T)) ensures r.0 == self.head, r.1 == self.content { unimplemented!() }
    }
    pub struct Response<T> { pub head: response::Parts, pub content: T }
    impl<T> Response<T> {
        #[verifier::external_body]
        pub fn into_parts(self) -> (r: (response::Parts, T)) ensures r.0 == self.head, r.1 == self.content { unimplemented!() }
    }
    pub mod request {
        use vstd::prelude::*;
        use super::{HeaderMap, Method, Refused, Request, Uri, Version};
        verus! {
        pub struct Parts { pub method: Method, pub uri: Uri, pub version: Version, pub headers: HeaderMap }
        pub struct Builder { pub p: Parts }
        impl Builder {
            #[verifier::external_body]
            pub fn new() -> (r: Builder) ensures forall|n: Seq<char>| #[trigger] r.p.headers.values(n) == Seq::<Seq<u8>>::empty() { unimplemented!() }
            #[verifier::external_body]
            pub fn method(self, m: Method) -> (r: Builder) ensures r.p == (Parts { method: m, ..self.p }) { unimplemented!() }
            #[verifier::external_body]
            pub fn uri(self, u: Uri) -> (r: Builder) ensures r.p == (Parts { uri: u, ..self.p }) { unimplemented!() }
            #[verifier::external_body]
            pub fn version(self, v: Version) -> (r: Builder) ensures r.p == (Parts { version: v, ..self.p }) { unimplemented!() }
            #[verifier::external_body]
            pub fn headers_mut(&mut self) -> (r: Option<&mut HeaderMap>)
                ensures r is Some, *(r->0) == old(self).p.headers, final(self).p == (Parts { headers: *final(r->0), ..old(self).p }) { unimplemented!() }
            #[verifier::external_body]
            pub fn body<T>(self, b: T) -> (r: Result<Request<T>, Refused>) ensures r is Ok, (r->Ok_0).head == self.p, (r->Ok_0).content == b { unimplemented!() }
        }
        }
    }
    pub mod response {
        use vstd::prelude::*;
        use super::{HeaderMap, Refused, Response, StatusCode, Version};
        verus! {
        pub struct Parts { pub status: StatusCode, pub version: Version, pub headers: HeaderMap }
        pub struct Builder { pub p: Parts, pub refused: bool }
        impl Builder {
            #[verifier::external_body]
            pub fn new() -> (r: Builder) ensures !r.refused, forall|n: Seq<char>| #[trigger] r.p.headers.values(n) == Seq::<Seq<u8>>::empty() { unimplemented!() }
            #[verifier::external_body]
            pub fn status(self, n: u16) -> (r: Builder) ensures 100 <= n < 1000 ==> r == (Builder { p: Parts { status: StatusCode { n }, ..self.p }, ..self }) { unimplemented!() }
            #[verifier::external_body]
            pub fn version(self, v: Version) -> (r: Builder) ensures r == (Builder { p: Parts { version: v, ..self.p }, ..self }) { unimplemented!() }
            #[verifier::external_body]
            pub fn headers_mut(&mut self) -> (r: Option<&mut HeaderMap>)
                ensures !old(self).refused ==> r is Some, r is Some ==> *(r->0) == old(self).p.headers && *final(self) == (Builder { p: Parts { headers: *final(r->0), ..old(self).p }, ..*old(self) }) { unimplemented!() }
            #[verifier::external_body]
            pub fn body<T>(self, b: T) -> (r: Result<Response<T>, Refused>) ensures !self.refused ==> r is Ok && (r->Ok_0).head == self.p && (r->Ok_0).content == b { unimplemented!() }
        }
        }
    }
    }
}
pub mod url {
    use vstd::prelude::*;
    verus! { pub struct ParseError { pub x: u8 } }
}
use url::ParseError;
impl From<url::ParseError> for Error {
    #[verifier::external_body]
    fn from(e: url::ParseError) -> Error { unimplemented!() }
}
pub trait ReadUrl { fn vx_url(&self) -> Result<Url, url::ParseError>; }
impl ReadUrl for String {
    #[verifier::external_body]
    fn vx_url(&self) -> (r: Result<Url, url::ParseError>) ensures match url_of(self@) { Some(u) => r == Ok::<Url, url::ParseError>(u), None => r is Err } { unimplemented!() }
}
// What http lists for a header map: the first value of each name comes with the name, the others without.
pub type Item = (Option<http::header::HeaderName>, http::header::HeaderValue);
pub open spec fn owner(xs: Seq<Item>, k: int) -> Seq<char> decreases k + 1 {
    if k < 0 { seq![] } else if xs[k].0 is Some { (xs[k].0->0).text() } else { owner(xs, k - 1) }
}
pub open spec fn gather(xs: Seq<Item>, k: int, n: Seq<char>) -> Seq<Seq<u8>> decreases k {
    if k <= 0 { seq![] } else if owner(xs, k - 1) == n { gather(xs, k - 1, n).push(xs[k - 1].1.bytes()) } else { gather(xs, k - 1, n) }
}
#[verifier::external_body]
pub fn http_items(h: http::HeaderMap) -> (r: Vec<Item>)
    ensures r@.len() > 0 ==> r@[0].0 is Some, forall|n: Seq<char>| #[trigger] gather(r@, r@.len() as int, n) == h.values(n),
{ unimplemented!() }
pub proof fn lemma_gathered(xs: Seq<Item>, k: int, n: int)
    requires 0 <= k < n <= xs.len(),
    ensures exists|i: int| 0 <= i < gather(xs, n, owner(xs, k)).len() && #[trigger] gather(xs, n, owner(xs, k))[i] == xs[k].1.bytes(),
    decreases n,
{
    let w = owner(xs, k);
    let g = gather(xs, n - 1, w);
    if k == n - 1 {
        assert(gather(xs, n, w)[g.len() as int] == xs[k].1.bytes());
    } else {
        lemma_gathered(xs, k, n - 1);
        let i = choose|i: int| 0 <= i < g.len() && #[trigger] g[i] == xs[k].1.bytes();
        assert(gather(xs, n, w)[i] == g[i]);
    }
}
// What Headers lists: every name once, with its values (contract executed in P04).
pub type Entry<'a> = (&'a HeaderName, &'a mut HeaderValues);
pub type Pair = (HeaderName, HeaderValues);
pub open spec fn listed(xs: Seq<Pair>, m: Map<Seq<char>, Seq<Seq<char>>>) -> bool {
    &&& forall|i: int| 0 <= i < xs.len() ==> m.dom().contains(cowv((#[trigger] xs[i]).0.0)) && m[cowv(xs[i].0.0)] == texts(xs[i].1.inner@)
    &&& forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> exists|i: int| 0 <= i < xs.len() && cowv((#[trigger] xs[i]).0.0) == n
    &&& forall|i: int, j: int| 0 <= i < j < xs.len() ==> cowv((#[trigger] xs[i]).0.0) != cowv((#[trigger] xs[j]).0.0)
}
// TRUSTED (executed in P04): iterating Headers lists every name once with its values.
#[verifier::external_body]
pub fn listing(h: &mut Headers) -> (r: Vec<Pair>) ensures listed(r@, htexts(old(h))), *final(h) == *old(h) { unimplemented!() }
pub open spec fn clean(t: Seq<char>) -> bool { ascii_chars(t) && sendable(utf8(t)) }
// headers that can be sent: token names, values without control characters
pub open spec fn wire(m: Map<Seq<char>, Seq<Seq<char>>>) -> bool {
    forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> ascii_chars(n) && lower(n) == n && token(n) && forall|i: int| 0 <= i < m[n].len() ==> clean(#[trigger] m[n][i])
}
pub open spec fn wire_pairs(xs: Seq<Pair>) -> bool {
    forall|i: int, n: Seq<char>| 0 <= i < xs.len() && n == cowv((#[trigger] xs[i]).0.0) ==> #[trigger] ascii_chars(n) && lower(n) == n && token(n) && forall|j: int| 0 <= j < xs[i].1.inner@.len() ==> clean((#[trigger] xs[i].1.inner@[j]).inner@)
}
pub open spec fn bytes_of(v: Seq<Seq<char>>) -> Seq<Seq<u8>> { v.map_values(|t: Seq<char>| utf8(t)) }
// the values that the first k pairs give to a name
pub open spec fn given(xs: Seq<Pair>, k: int, n: Seq<char>) -> Seq<Seq<u8>> decreases k {
    if k <= 0 { seq![] } else if cowv(xs[k - 1].0.0) == n { given(xs, k - 1, n) + bytes_of(texts(xs[k - 1].1.inner@)) } else { given(xs, k - 1, n) }
}
pub proof fn lemma_given(xs: Seq<Pair>, k: int, n: Seq<char>, m: Map<Seq<char>, Seq<Seq<char>>>)
    requires listed(xs, m), 0 <= k <= xs.len(),
    ensures
        (forall|i: int| 0 <= i < k ==> cowv((#[trigger] xs[i]).0.0) != n) ==> given(xs, k, n) == Seq::<Seq<u8>>::empty(),
        (exists|i: int| 0 <= i < k && cowv((#[trigger] xs[i]).0.0) == n) ==> given(xs, k, n) == bytes_of(hvals(m, n)),
    decreases k,
{
    if k > 0 {
        lemma_given(xs, k - 1, n, m);
        if cowv(xs[k - 1].0.0) == n {
            assert(given(xs, k - 1, n) == Seq::<Seq<u8>>::empty());
            assert(given(xs, k, n) =~= bytes_of(texts(xs[k - 1].1.inner@)));
        }
    }
}
pub proof fn lemma_given_all(xs: Seq<Pair>, m: Map<Seq<char>, Seq<Seq<char>>>)
    requires listed(xs, m),
    ensures forall|n: Seq<char>| #[trigger] given(xs, xs.len() as int, n) == bytes_of(hvals(m, n)),
        wire(m) ==> wire_pairs(xs),
{
    assert forall|n: Seq<char>| #[trigger] given(xs, xs.len() as int, n) == bytes_of(hvals(m, n)) by {
        lemma_given(xs, xs.len() as int, n, m);
        if !m.dom().contains(n) { assert(bytes_of(hvals(m, n)) =~= Seq::<Seq<u8>>::empty()); }
    }
    if wire(m) {
        assert forall|i: int, n: Seq<char>| 0 <= i < xs.len() && n == cowv((#[trigger] xs[i]).0.0) implies #[trigger] ascii_chars(n) && lower(n) == n && token(n) && forall|j: int| 0 <= j < xs[i].1.inner@.len() ==> clean((#[trigger] xs[i].1.inner@[j]).inner@) by {
            assert(m.dom().contains(n));
            assert forall|j: int| 0 <= j < xs[i].1.inner@.len() implies clean((#[trigger] xs[i].1.inner@[j]).inner@) by {
                assert(m[n][j] == texts(xs[i].1.inner@)[j]);
            }
        }
    }
}
impl Show for HeaderName { open spec fn shown(&self) -> Seq<char> { cowv(self.0) } }
// Contracts discharged in units method, status_code, headers and requests.
impl Method {
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: CrateResult<Method>)
        ensures r matches Ok(m) ==> method_name(m) == upper(s@), (exists|m: Method| method_name(m) == upper(s@)) ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == method_name(*self) { unimplemented!() }
}
impl StatusCode {
    #[verifier::external_body]
    pub fn try_from(n: u16) -> (r: CrateResult<StatusCode>) ensures r is Ok <==> registered(n), r matches Ok(s) ==> code_num(s) == n { unimplemented!() }
    #[verifier::external_body]
    pub fn number(self) -> (r: u16) ensures r == code_num(self) { unimplemented!() }
}
impl HeaderName {
    #[verifier::external_body]
    pub fn from_bytes(bytes: Vec<u8>) -> (r: CrateResult<HeaderName>) ensures r is Ok <==> ascii_bytes(bytes@), r matches Ok(n) ==> cowv(n.0) == lower(chars_of(bytes@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == cowv(self.0) { unimplemented!() }
}
impl HeaderValue {
    #[verifier::external_body]
    pub fn from_bytes(bytes: Vec<u8>) -> (r: CrateResult<HeaderValue>) ensures r is Ok <==> ascii_bytes(bytes@), r matches Ok(v) ==> v.inner@ == chars_of(bytes@) { unimplemented!() }
}
#[verifier::external_body]
pub fn str_bytes(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { s.as_bytes() }

pub open spec fn known_method(t: Seq<char>) -> bool { exists|m: Method| method_name(m) == upper(t) }
impl Method {
//@ fn src/hyperium_http.rs <Method as From<http::Method>>::from
//@ bare
//@ rename from_http
//@ ret r
requires known_method(method.text()),
ensures method_name(r) == upper(method.text()),
//@ end
}
impl http::Method {
//@ fn src/hyperium_http.rs <http::Method as From<Method>>::from
//@ bare
//@ rename from_ours
//@ ret r
ensures r.text() == method_name(method),
//@ at start
proof { lemma_method_plain(method); }
//@ end
}
impl StatusCode {
//@ fn src/hyperium_http.rs <StatusCode as From<http::StatusCode>>::from
//@ bare
//@ rename from_http
//@ ret r
requires registered(status.n),
ensures code_num(r) == status.n,
//@ end
}
impl http::StatusCode {
//@ fn src/hyperium_http.rs <http::StatusCode as From<StatusCode>>::from
//@ bare
//@ rename from_ours
//@ ret r
ensures r.n == code_num(status),
//@ rewrite "status.into()" => "status.number()"
//@ end
}
pub open spec fn same_version(a: http::Version, b: Version) -> bool {
    match a {
        http::Version::HTTP_09 => b is Http0_9,
        http::Version::HTTP_10 => b is Http1_0,
        http::Version::HTTP_11 => b is Http1_1,
        http::Version::HTTP_2 => b is Http2_0,
        http::Version::HTTP_3 => b is Http3_0,
    }
}
impl Version {
//@ fn src/hyperium_http.rs <Version as From<http::Version>>::from
//@ bare
//@ rename from_http
//@ ret r
ensures same_version(version, r),
//@ end
}
impl http::Version {
//@ fn src/hyperium_http.rs <http::Version as From<Version>>::from
//@ bare
//@ rename from_ours
//@ ret r
ensures same_version(r, version),
//@ end
}
impl HeaderName {
//@ fn src/hyperium_http.rs <HeaderName as TryFrom<http::header::HeaderName>>::try_from
//@ bare
//@ rename from_http
//@ ret r
ensures r is Ok, cowv((r->Ok_0).0) == name.text(),
//@ rewrite "name.as_str().as_bytes().to_owned()" => "str_bytes(name.as_str()).to_vec()"
//@ rewrite "Result<Self, Self::Error>" => "Result<Self, Error>"
//@ at start
proof { broadcast use axiom_utf8_ascii; lemma_token_ascii(); }
//@ end
}
impl http::header::HeaderName {
//@ fn src/hyperium_http.rs <http::header::HeaderName as TryFrom<HeaderName>>::try_from
//@ bare
//@ rename from_ours
//@ ret r
requires ascii_chars(cowv(name.0)), lower(cowv(name.0)) == cowv(name.0),
ensures r is Ok <==> token(cowv(name.0)), r matches Ok(n) ==> n.text() == cowv(name.0),
//@ rewrite "name.as_str().as_bytes()" => "str_bytes(name.as_str())"
//@ rewrite "Result<Self, Self::Error>" => "Result<Self, Error>"
//@ at start
broadcast use axiom_utf8_ascii;
//@ end
}
impl HeaderValue {
//@ fn src/hyperium_http.rs <HeaderValue as TryFrom<http::header::HeaderValue>>::try_from
//@ bare
//@ rename from_http
//@ ret r
ensures r is Ok <==> ascii_bytes(value.bytes()), r matches Ok(v) ==> v.inner@ == chars_of(value.bytes()),
//@ rewrite "value.as_bytes().to_owned()" => "value.as_bytes().to_vec()"
//@ rewrite "Result<Self, Self::Error>" => "Result<Self, Error>"
//@ end
}
impl http::header::HeaderValue {
//@ fn src/hyperium_http.rs <http::header::HeaderValue as TryFrom<HeaderValue>>::try_from
//@ bare
//@ rename from_ours
//@ ret r
ensures r is Ok <==> sendable(utf8(value.inner@)), r matches Ok(v) ==> v.bytes() == utf8(value.inner@),
//@ rewrite "value.as_str().as_bytes()" => "str_bytes(value.as_str())"
//@ rewrite "Result<Self, Self::Error>" => "Result<Self, Error>"
//@ end
}
pub open spec fn chars_all(v: Seq<Seq<u8>>) -> Seq<Seq<char>> { v.map_values(|b: Seq<u8>| chars_of(b)) }
pub open spec fn ascii_items(xs: Seq<Item>) -> bool { forall|i: int| 0 <= i < xs.len() ==> ascii_bytes((#[trigger] xs[i]).1.bytes()) }
//@ fn src/hyperium_http.rs hyperium_headers_to_headers
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
ensures
    r is Ok ==> forall|n: Seq<char>| #[trigger] hvals(htexts(final(headers)), n) == hvals(htexts(old(headers)), n) + chars_all(hyperium_headers.values(n)),
    (forall|n: Seq<char>, i: int| 0 <= i < hyperium_headers.values(n).len() ==> ascii_bytes(#[trigger] hyperium_headers.values(n)[i])) ==> r is Ok,
//@ rewrite "value.try_into()?" => "HeaderValue::from_http(value)?"
//@ rewrite "name.try_into()?" => "HeaderName::from_http(name)?"
//@ at start
let ghost h0 = hyperium_headers;
let ghost m0 = htexts(headers);
let hyperium_headers = http_items(hyperium_headers);
let ghost xs = hyperium_headers@;
proof { lemma_token_ascii(); }
//@ loop 0 it=it
invariant
    it.seq() == xs,
    forall|n: Seq<char>| #[trigger] gather(xs, xs.len() as int, n) == h0.values(n),
    xs.len() > 0 ==> xs[0].0 is Some,
    last_name is None <==> it.index@ == 0,
    last_name matches Some(o) ==> cowv(o.0) == owner(xs, it.index@ - 1),
    forall|n: Seq<char>| #[trigger] hvals(htexts(headers), n) == hvals(m0, n) + chars_all(gather(xs, it.index@, n)),
//@ at loop 0 start
let ghost k = it.index@;
let ghost m1 = htexts(headers);
proof { assert(xs[k] == (name, value)); lemma_gathered(xs, k, xs.len() as int); assert(gather(xs, xs.len() as int, owner(xs, k)) == h0.values(owner(xs, k))); }
//@ at loop 0 end
proof {
    let w = owner(xs, k);
    assert forall|n: Seq<char>| #[trigger] hvals(htexts(headers), n) == hvals(m0, n) + chars_all(gather(xs, k + 1, n)) by {
        let g = gather(xs, k, n);
        assert(hvals(m1, n) == hvals(m0, n) + chars_all(g));
        if w == n {
            assert(chars_all(g.push(xs[k].1.bytes())) =~= chars_all(g).push(chars_of(xs[k].1.bytes())));
            assert((hvals(m0, n) + chars_all(g)).push(chars_of(xs[k].1.bytes())) =~= hvals(m0, n) + chars_all(g).push(chars_of(xs[k].1.bytes())));
        }
    }
}
//@ end
impl Headers {
//@ fn src/hyperium_http.rs <Headers as TryFrom<http::HeaderMap>>::try_from
//@ bare
//@ rename from_http
//@ ret r
ensures
    r matches Ok(h) ==> forall|n: Seq<char>| #[trigger] hvals(htexts(&h), n) == chars_all(hyperium_headers.values(n)),
    (forall|n: Seq<char>, i: int| 0 <= i < hyperium_headers.values(n).len() ==> ascii_bytes(#[trigger] hyperium_headers.values(n)[i])) ==> r is Ok,
//@ rewrite "Result<Self, Self::Error>" => "Result<Self, Error>"
//@ at tail
proof {
    assert forall|n: Seq<char>| #[trigger] hvals(htexts(&headers), n) == chars_all(h0.values(n)) by { assert(hvals(htexts(&headers), n) =~= chars_all(h0.values(n))); }
}
//@ at start
let ghost h0 = hyperium_headers;
//@ end
}
//@ fn src/hyperium_http.rs headers_to_hyperium_headers
//@ attr #[verifier::loop_isolation(false)]
requires wire(htexts(old(headers))),
ensures
    *final(headers) == *old(headers),
    forall|n: Seq<char>| #[trigger] final(hyperium_headers).values(n) == old(hyperium_headers).values(n) + bytes_of(hvals(htexts(old(headers)), n)),
//@ rewrite "values.iter()" => "&values.inner"
//@ fmt
//@ at start
broadcast use axiom_utf8_ascii;
let ghost m0 = htexts(headers);
let ghost h0 = *hyperium_headers;
let headers = listing(headers);
let ghost xs = headers@;
proof { lemma_given_all(xs, m0); lemma_token_ascii(); }
//@ loop 0 it=it
invariant
    it.seq() == xs,
    forall|n: Seq<char>| #[trigger] hyperium_headers.values(n) == h0.values(n) + given(xs, it.index@, n),
//@ at loop 0 start
let ghost k = it.index@;
let ghost nm = cowv(name.0);
let ghost vs = values.inner@;
let ghost h1 = *hyperium_headers;
proof { assert(xs[k] == (name, values)); assert(ascii_chars(nm)); }
//@ loop 1 it=jt
invariant
    jt.seq().len() == vs.len(), forall|i: int| 0 <= i < vs.len() ==> *(#[trigger] jt.seq()[i]) == vs[i],
    name.text() == nm,
    forall|n: Seq<char>| #[trigger] hyperium_headers.values(n) == if n == nm { h1.values(n) + bytes_of(texts(vs.subrange(0, jt.index@))) } else { h1.values(n) },
//@ at loop 1 start
let ghost j = jt.index@;
let ghost h2 = *hyperium_headers;
proof { assert(*value == vs[j]); assert(clean(vs[j].inner@)); }
//@ at loop 1 end
proof {
    assert(h1.values(nm) + bytes_of(texts(vs.subrange(0, j + 1))) =~= (h1.values(nm) + bytes_of(texts(vs.subrange(0, j)))).push(utf8(vs[j].inner@)));
}
//@ at loop 0 end
proof {
    assert(vs.subrange(0, vs.len() as int) =~= vs);
    assert forall|n: Seq<char>| #[trigger] hyperium_headers.values(n) == h0.values(n) + given(xs, k + 1, n) by {
        assert(h1.values(n) == h0.values(n) + given(xs, k, n));
        if n == nm { assert(h0.values(n) + given(xs, k + 1, n) =~= h1.values(n) + bytes_of(texts(vs))); }
    }
}
//@ end
// Conversion of whole header maps: `for` loops written out for map(..).collect::<Result<..>>()?, which
// runs the closure on every element in order and stops at the first error.
#[verifier::external_body]
pub fn owned_listing(h: Headers) -> (r: Vec<Pair>) ensures listed(r@, htexts(&h)) { unimplemented!() }
// what the types of names and values keep: ASCII, names in lower case
pub open spec fn typed(m: Map<Seq<char>, Seq<Seq<char>>>) -> bool {
    forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> ascii_chars(n) && lower(n) == n && forall|i: int| 0 <= i < m[n].len() ==> ascii_chars(#[trigger] m[n][i])
}
pub open spec fn sent_values(vs: Seq<HeaderValue>, k: int) -> bool { forall|j: int| 0 <= j < k ==> sendable(utf8((#[trigger] vs[j]).inner@)) }
pub open spec fn sent_pairs(xs: Seq<Pair>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> token(cowv((#[trigger] xs[i]).0.0)) && sent_values(xs[i].1.inner@, xs[i].1.inner@.len() as int)
}
pub open spec fn gives(h: http::HeaderMap, xs: Seq<Pair>, k: int) -> bool { forall|n: Seq<char>| #[trigger] h.values(n) == given(xs, k, n) }
pub open spec fn adds(h1: http::HeaderMap, h: http::HeaderMap, nm: Seq<char>, vs: Seq<HeaderValue>, j: int) -> bool {
    forall|n: Seq<char>| #[trigger] h.values(n) == if n == nm { h1.values(n) + bytes_of(texts(vs.subrange(0, j))) } else { h1.values(n) }
}
pub proof fn lemma_wire(xs: Seq<Pair>, m: Map<Seq<char>, Seq<Seq<char>>>)
    requires listed(xs, m), typed(m),
    ensures
        wire(m) <==> sent_pairs(xs, xs.len() as int),
        forall|i: int| 0 <= i < xs.len() ==> ascii_chars(cowv((#[trigger] xs[i]).0.0)) && lower(cowv(xs[i].0.0)) == cowv(xs[i].0.0),
{
    if wire(m) {
        assert forall|i: int| 0 <= i < xs.len() implies token(cowv((#[trigger] xs[i]).0.0)) && sent_values(xs[i].1.inner@, xs[i].1.inner@.len() as int) by {
            let n = cowv(xs[i].0.0);
            assert(m.dom().contains(n));
            assert forall|j: int| 0 <= j < xs[i].1.inner@.len() implies sendable(utf8((#[trigger] xs[i].1.inner@[j]).inner@)) by {
                assert(clean(m[n][j]));
            }
        }
    }
    if sent_pairs(xs, xs.len() as int) {
        assert forall|n: Seq<char>| #[trigger] m.dom().contains(n) implies ascii_chars(n) && lower(n) == n && token(n) && forall|i: int| 0 <= i < m[n].len() ==> clean(#[trigger] m[n][i]) by {
            let i = choose|i: int| 0 <= i < xs.len() && cowv((#[trigger] xs[i]).0.0) == n;
            assert forall|j: int| 0 <= j < m[n].len() implies clean(#[trigger] m[n][j]) by {
                assert(m[n][j] == xs[i].1.inner@[j].inner@);
            }
        }
    }
}
pub proof fn lemma_sent(xs: Seq<Pair>, k: int, j: int)
    requires 0 <= k < xs.len(),
    ensures
        sent_pairs(xs, xs.len() as int) ==> token(cowv(xs[k].0.0)) && sent_values(xs[k].1.inner@, xs[k].1.inner@.len() as int) && (0 <= j < xs[k].1.inner@.len() ==> sendable(utf8(xs[k].1.inner@[j].inner@))),
{}
pub proof fn lemma_progress(h1: http::HeaderMap, h2: http::HeaderMap, h: http::HeaderMap, nm: Seq<char>, vs: Seq<HeaderValue>, j: int)
    requires
        0 <= j < vs.len(), adds(h1, h2, nm, vs, j),
        forall|m: Seq<char>| #[trigger] h.values(m) == if m == nm { h2.values(m).push(utf8(vs[j].inner@)) } else { h2.values(m) },
    ensures adds(h1, h, nm, vs, j + 1),
{
    assert(h1.values(nm) + bytes_of(texts(vs.subrange(0, j + 1))) =~= (h1.values(nm) + bytes_of(texts(vs.subrange(0, j)))).push(utf8(vs[j].inner@)));
}
pub proof fn lemma_pair(xs: Seq<Pair>, k: int, h1: http::HeaderMap, h: http::HeaderMap)
    requires
        0 <= k < xs.len(), gives(h1, xs, k), adds(h1, h, cowv(xs[k].0.0), xs[k].1.inner@, xs[k].1.inner@.len() as int),
        sent_pairs(xs, k), token(cowv(xs[k].0.0)), sent_values(xs[k].1.inner@, xs[k].1.inner@.len() as int),
    ensures gives(h, xs, k + 1), sent_pairs(xs, k + 1),
{
    let vs = xs[k].1.inner@;
    assert(vs.subrange(0, vs.len() as int) =~= vs);
    assert forall|n: Seq<char>| #[trigger] h.values(n) == given(xs, k + 1, n) by {
        assert(h1.values(n) == given(xs, k, n));
    }
}
//@ fn src/hyperium_http.rs <http::HeaderMap as TryFrom<Headers>>::try_from
//@ bare
//@ rename header_map_from_ours
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
requires typed(htexts(&headers)),
ensures
    r is Ok <==> wire(htexts(&headers)),
    r matches Ok(h) ==> forall|n: Seq<char>| #[trigger] h.values(n) == bytes_of(hvals(htexts(&headers), n)),
//@ rewrite "Result<Self, Self::Error>" => "Result<http::HeaderMap, Error>"
//@ rewrite "headers\n            .into_iter()\n            .map(|(name, values)| {" => "let headers = owned_listing(headers); let ghost xs = headers@; proof { lemma_given_all(xs, m0); lemma_token_ascii(); lemma_wire(xs, m0); } for (name, values) in it: headers invariant it.seq() == xs, sent_pairs(xs, it.index@), gives(hyperium_headers, xs, it.index@), { let ghost k = it.index@; let ghost nm = cowv(name.0); let ghost vs = values.inner@; let ghost h1 = hyperium_headers; proof { assert(xs[k] == (name, values)); lemma_sent(xs, k, 0); }"
//@ rewrite "values\n                    .into_iter()\n                    .map(|value| {" => "for value in jt: values.inner invariant jt.seq() == vs, name.text() == nm, sent_values(vs, jt.index@), adds(h1, hyperium_headers, nm, vs, jt.index@), { let ghost j = jt.index@; let ghost h2 = hyperium_headers; proof { assert(value == vs[j]); lemma_sent(xs, k, j); }"
//@ rewrite "Ok(())\n                    })\n                    .collect::<Result<Vec<()>, Error>>()?;" => "proof { lemma_progress(h1, h2, hyperium_headers, nm, vs, j); } } proof { lemma_pair(xs, k, h1, hyperium_headers); }"
//@ rewrite "Ok(())\n            })\n            .collect::<Result<Vec<()>, Error>>()?;" => "}"
//@ rewrite "name.try_into()?" => "http::header::HeaderName::from_ours(name)?"
//@ rewrite "value.try_into()?" => "http::header::HeaderValue::from_ours(value)?"
//@ at start
let ghost m0 = htexts(&headers);
//@ end
//@ fn src/hyperium_http.rs from_uri_to_url
//@ ret r
ensures match url_of(uri.text()) { Some(u) => r == Ok::<Url, url::ParseError>(u), None => r is Err },
//@ rewrite ".parse()" => ".vx_url()"
//@ fmt
//@ end
//@ fn src/hyperium_http.rs from_url_to_uri
//@ ret r
requires http::Uri::read(url_text(*url)) is Some,
ensures r == http::Uri::read(url_text(*url))->0,
//@ fmt
//@ end
//@ item src/request.rs struct Request
pub mod upgrade {
    use vstd::prelude::*;
    use super::async_channel;
    verus! {
    #[verifier::external_body]
    pub struct Connection { x: u8 }
    //@ item src/upgrade/sender.rs struct Sender
    //@ item src/upgrade/receiver.rs struct Receiver
    }
}
//@ item src/response.rs struct Response
// Contracts discharged in units requests and responses.
impl Request {
    #[verifier::external_body]
    pub fn new(method: Method, url: Url) -> (r: Request)
        ensures r.method == method, r.url == url, r.version is None, htexts(&r.headers) == Map::<Seq<char>, Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn method(&self) -> (r: Method) ensures r == self.method { unimplemented!() }
    #[verifier::external_body]
    pub fn url(&self) -> (r: &Url) ensures *r == self.url { unimplemented!() }
}
impl Response {
    #[verifier::external_body]
    pub fn new(status: StatusCode) -> (r: Response)
        ensures r.status == status, r.version is None, htexts(&r.headers) == Map::<Seq<char>, Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn status(&self) -> (r: StatusCode) ensures r == self.status { unimplemented!() }
    #[verifier::external_body]
    pub fn take_body(&mut self) -> (r: Body)
        ensures r == old(self).body, final(self).status == old(self).status, htexts(&final(self).headers) == htexts(&old(self).headers) { unimplemented!() }
}
impl Body {
    #[verifier::external_body]
    pub fn from_request(req: Request) -> (r: Body) ensures r == req.body { unimplemented!() }
}
impl Request {
    #[verifier::external_body]
    pub fn version(&self) -> (r: Option<Version>) ensures r == self.version { unimplemented!() }
    #[verifier::external_body]
    pub fn set_version(&mut self, version: Option<Version>) ensures *final(self) == (Request { version: version, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_body(&mut self, body: Body)
        ensures
            final(self).body == body,
            htexts(&final(self).headers) == synced(htexts(&old(self).headers), body),
            *final(self) == (Request { headers: final(self).headers, body: final(self).body, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut(&mut self) -> (r: &mut Headers) ensures *r == old(self).headers, *final(self) == (Request { headers: *final(r), ..*old(self) }) { unimplemented!() }
}
impl Response {
    #[verifier::external_body]
    pub fn version(&self) -> (r: Option<Version>) ensures r == self.version { unimplemented!() }
    #[verifier::external_body]
    pub fn set_version(&mut self, version: Option<Version>) ensures *final(self) == (Response { version: version, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_body(&mut self, body: Body)
        ensures
            final(self).body == body,
            htexts(&final(self).headers) == synced(htexts(&old(self).headers), body),
            *final(self) == (Response { headers: final(self).headers, body: final(self).body, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut(&mut self) -> (r: &mut Headers) ensures *r == old(self).headers, *final(self) == (Response { headers: *final(r), ..*old(self) }) { unimplemented!() }
}

// the version an http message says for a message of ours: HTTP/1.1 for none
pub open spec fn sent_version(a: http::Version, b: Option<Version>) -> bool { match b { Some(v) => same_version(a, v), None => a is HTTP_11 } }
// the headers of ours are those of http, with the body's media type where they have no Content-Type
pub open spec fn received(m: Map<Seq<char>, Seq<Seq<char>>>, h: http::HeaderMap, b: Body) -> bool {
    exists|m0: Map<Seq<char>, Seq<Seq<char>>>| #[trigger] synced(m0, b) == m && forall|n: Seq<char>| #[trigger] hvals(m0, n) == chars_all(h.values(n))
}
pub open spec fn all_ascii(h: http::HeaderMap) -> bool { forall|n: Seq<char>, i: int| 0 <= i < h.values(n).len() ==> ascii_bytes(#[trigger] h.values(n)[i]) }
impl Request {
//@ fn src/hyperium_http.rs <Request as TryFrom<http::Request<Body>>>::try_from
//@ bare
//@ rename from_http
//@ ret r
ensures
    r matches Ok(q) ==> {
        &&& method_name(q.method) == upper(req.head.method.text())
        &&& url_of(req.head.uri.text()) == Some(q.url)
        &&& q.version is Some && same_version(req.head.version, q.version->0)
        &&& received(htexts(&q.headers), req.head.headers, req.content)
        &&& q.body == req.content
    },
    r is Ok <== known_method(req.head.method.text()) && url_of(req.head.uri.text()) is Some && all_ascii(req.head.headers),
//@ rewrite "Result<Self, Self::Error>" => "Result<Self, Error>"
//@ rewrite "parts.version.into()" => "Version::from_http(parts.version)"
//@ at start
let ghost h0 = req.head.headers;
//@ at before-call set_body#0
let ghost m0 = htexts(&req.headers);
proof {
    assert forall|n: Seq<char>| #[trigger] hvals(m0, n) == chars_all(h0.values(n)) by { assert(hvals(m0, n) =~= chars_all(h0.values(n))); }
}
//@ at after-call set_body#0
proof { assert(synced(m0, req.body) == htexts(&req.headers)); }
//@ end
}
impl http::Request<Body> {
//@ fn src/hyperium_http.rs <http::Request<Body> as From<Request>>::from
//@ bare
//@ rename from_ours
//@ ret r
requires wire(htexts(&req.headers)), http::Uri::read(url_text(req.url)) is Some,
ensures
    r.head.method.text() == method_name(req.method),
    Some(r.head.uri) == http::Uri::read(url_text(req.url)),
    sent_version(r.head.version, req.version),
    forall|n: Seq<char>| #[trigger] r.head.headers.values(n) == bytes_of(hvals(htexts(&req.headers), n)),
    r.content == req.body,
//@ rewrite "req.method().into()" => "http::Method::from_ours(req.method())"
//@ rewrite "v.into()" => "http::Version::from_ours(v)"
//@ rewrite ".unwrap_or_default()" => ".unwrap_or(http::Version::vx_default())"
//@ rewrite "req.into()" => "Body::from_request(req)"
//@ closure 0 types="Version" ret="x: http::Version"
ensures same_version(x, v),
//@ at start
let ghost m0 = htexts(&req.headers);
//@ at after-call headers_to_hyperium_headers#0
proof {
    assert forall|n: Seq<char>| #[trigger] builder.p.headers.values(n) == bytes_of(hvals(m0, n)) by { assert(builder.p.headers.values(n) =~= bytes_of(hvals(m0, n))); }
}
//@ end
}
impl Response {
//@ fn src/hyperium_http.rs <Response as TryFrom<http::Response<Body>>>::try_from
//@ bare
//@ rename from_http
//@ ret r
ensures
    r matches Ok(q) ==> {
        &&& code_num(q.status) == res.head.status.n
        &&& q.version is Some && same_version(res.head.version, q.version->0)
        &&& received(htexts(&q.headers), res.head.headers, res.content)
        &&& q.body == res.content
    },
    r is Ok <== registered(res.head.status.n) && all_ascii(res.head.headers),
//@ rewrite "Result<Self, Self::Error>" => "Result<Self, Error>"
//@ rewrite "parts.version.into()" => "Version::from_http(parts.version)"
//@ at start
let ghost h0 = res.head.headers;
//@ at before-call set_body#0
let ghost m0 = htexts(&res.headers);
proof {
    assert forall|n: Seq<char>| #[trigger] hvals(m0, n) == chars_all(h0.values(n)) by { assert(hvals(m0, n) =~= chars_all(h0.values(n))); }
}
//@ at after-call set_body#0
proof { assert(synced(m0, res.body) == htexts(&res.headers)); }
//@ end
}
impl http::Response<Body> {
//@ fn src/hyperium_http.rs <http::Response<Body> as From<Response>>::from
//@ bare
//@ rename from_ours
//@ ret r
requires wire(htexts(&res.headers)),
ensures
    r.head.status.n == code_num(res.status),
    sent_version(r.head.version, res.version),
    forall|n: Seq<char>| #[trigger] r.head.headers.values(n) == bytes_of(hvals(htexts(&res.headers), n)),
    r.content == res.body,
//@ rewrite "res.status().into()" => "res.status().number()"
//@ rewrite "v.into()" => "http::Version::from_ours(v)"
//@ rewrite ".unwrap_or_default()" => ".unwrap_or(http::Version::vx_default())"
//@ closure 0 types="Version" ret="x: http::Version"
ensures same_version(x, v),
//@ at start
let ghost m0 = htexts(&res.headers);
//@ at after-call headers_to_hyperium_headers#0
proof {
    assert forall|n: Seq<char>| #[trigger] builder.p.headers.values(n) == bytes_of(hvals(m0, n)) by { assert(builder.p.headers.values(n) =~= bytes_of(hvals(m0, n))); }
}
//@ end
}
}
fn main() {}
