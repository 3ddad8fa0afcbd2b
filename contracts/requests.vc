//@ # P17: requests.
//@ include message_types.inc
//@ include indices.inc
//@ include quoted.inc
//@ include quoting.inc
//@ include unquoted.inc
//@ include split_unquoted.inc
//@ include urls.inc
//@ item src/method.rs enum Method #[derive(Clone, Copy)]
// ---- Request ----
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub uninterp spec fn url_query(u: Url) -> Option<Seq<char>>;
pub uninterp spec fn url_with_query(u: Url, q: Seq<char>) -> Url;
pub uninterp spec fn url_host(u: Url) -> Option<Seq<char>>;
// TRUSTED: url::Url's query and host.
impl Url {
    #[verifier::external_body]
    pub fn query(&self) -> (r: Option<&str>) ensures opt_str(r) == url_query(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_query(&mut self, q: Option<&str>) ensures q matches Some(t) ==> *final(self) == url_with_query(*old(self), t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn host_str(&self) -> (r: Option<&str>) ensures opt_str(r) == url_host(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Url) ensures r == *self { unimplemented!() }
}
// TRUSTED stand-in for serde_qs.
pub uninterp spec fn qs_read<T>(t: Seq<char>) -> Option<T>;
pub uninterp spec fn qs_text<T>(x: T) -> Option<Seq<char>>;
pub mod serde_qs {
    use vstd::prelude::*;
    use super::{qs_read, qs_text, Show};
    verus! {
    pub struct Error { pub x: u8 }
    impl Show for Error { uninterp spec fn shown(&self) -> Seq<char>; }
    #[verifier::external_body]
    pub fn from_str<T>(s: &str) -> (r: Result<T, Error>) ensures match r { Ok(x) => qs_read::<T>(s@) == Some(x), Err(_) => qs_read::<T>(s@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string<T>(x: &T) -> (r: Result<String, Error>) ensures match r { Ok(t) => qs_text(*x) == Some(t@), Err(_) => qs_text(*x) is None } { unimplemented!() }
    }
}
//@ item src/request.rs struct Request
//@ include message.inc FILE=request T=Request
//@ include headers_iter.inc
//@ include message_iters.inc FILE=request T=Request
//@ fn src/request.rs Request::new
//@ ret r
requires
    call_requires(U::try_into, (url,)),
    forall|o: std::result::Result<Url, U::Error>| call_ensures(U::try_into, (url,), o) ==> o is Ok,
ensures
    call_ensures(U::try_into, (url,), Ok(r.url)),
    made(r, method),
//@ end
pub open spec fn made(r: Request, m: Method) -> bool {
    &&& r.method == m
    &&& htexts(&r.headers) == Map::<Seq<char>, Seq<Seq<char>>>::empty()
    &&& r.body.blank() && r.ext.none() && r.version is None && r.peer_addr is None && r.local_addr is None && !r.has_trailers
    &&& r.trailers_sender is Some && r.trailers_receiver is Some && (r.trailers_sender->0).id == (r.trailers_receiver->0).id && (r.trailers_sender->0).capacity() == 1
}
//@ include request_short.inc F=get M=Get
//@ include request_short.inc F=head M=Head
//@ include request_short.inc F=post M=Post
//@ include request_short.inc F=put M=Put
//@ include request_short.inc F=delete M=Delete
//@ include request_short.inc F=connect M=Connect
//@ include request_short.inc F=options M=Options
//@ include request_short.inc F=trace M=Trace
//@ include request_short.inc F=patch M=Patch
//@ fn src/request.rs Request::method
//@ ret r
ensures r == self.method,
//@ end
//@ fn src/request.rs Request::set_method
ensures *final(self) == (Request { method: method, ..*old(self) }),
//@ end
//@ fn src/request.rs Request::url
//@ ret r
ensures *r == self.url,
//@ end
//@ fn src/request.rs Request::url_mut
//@ ret r
ensures *r == old(self).url, *final(self) == (Request { url: *final(r), ..*old(self) }),
//@ end
impl Request {
//@ fn src/request.rs <Request as Clone>::clone
//@ bare
//@ ret r
ensures
    r.method == self.method, r.url == self.url, r.version == self.version, htexts(&r.headers) == htexts(&self.headers),
    opt_text(r.peer_addr) == opt_text(self.peer_addr), opt_text(r.local_addr) == opt_text(self.local_addr),
    r.body.blank(), r.ext.none(), !r.has_trailers,
//@ rewrite "self.peer_addr.clone()" => "clone_opt(&self.peer_addr)"
//@ rewrite "self.local_addr.clone()" => "clone_opt(&self.local_addr)"
//@ end
}
impl Body {
//@ fn src/request.rs <Body as From<Request>>::from
//@ bare
//@ rename from_request
//@ ret r
ensures r == req.body,
//@ end
}
//@ fn src/request.rs Request::query
//@ ret r
ensures match qs_read::<T>(match url_query(self.url) { Some(q) => q, None => ""@ }) {
    Some(x) => r == Ok::<T, Error>(x),
    None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
},
//@ rewrite "<'de, T: serde_crate::de::Deserialize<'de>>(&'de self)" => "<T>(&self)"
//@ closure 0 types="serde_qs::Error" ret="x: Error"
ensures x.status == StatusCode::BadRequest,
//@ fmt
//@ end
//@ fn src/request.rs Request::set_query
//@ ret r
ensures match qs_text(*query) {
    Some(t) => r is Ok && *final(self) == (Request { url: url_with_query(old(self).url, t), ..*old(self) }),
    None => r is Err && (r->Err_0).status == StatusCode::BadRequest && *final(self) == *old(self),
},
//@ rewrite "query: &impl Serialize" => "query: &impl Sized"
//@ closure 0 types="serde_qs::Error" ret="x: Error"
ensures x.status == StatusCode::BadRequest,
//@ fmt
//@ end

// Who asked, and for which host.
pub open spec fn unwrapped(t: Seq<char>) -> Seq<char> {
    if t.len() >= 2 && t[0] == '"' && t.last() == '"' { t.subrange(1, t.len() - 1) } else { t }
}
// the value of a `key=value` pair with this key
pub open spec fn pair_of(p: Seq<char>, part: Seq<char>) -> Option<Seq<char>> {
    let k = first(p, is_char('='));
    if 0 <= k < p.len() && lower(trim(p.subrange(0, k))) == lower(part) { Some(unwrapped(trim(p.subrange(k + 1, p.len() as int)))) } else { None }
}
pub open spec fn in_pairs(part: Seq<char>) -> spec_fn(Option<Seq<char>>, Seq<char>) -> Option<Seq<char>> {
    |acc: Option<Seq<char>>, p: Seq<char>| match acc { Some(_) => acc, None => pair_of(p, part) }
}
pub open spec fn in_elements(part: Seq<char>) -> spec_fn(Option<Seq<char>>, Seq<char>) -> Option<Seq<char>> {
    |acc: Option<Seq<char>>, e: Seq<char>| fold(usplits(e, ';'), usplits(e, ';').len() as int, acc, in_pairs(part))
}
// the first parameter of this name in a Forwarded value
pub open spec fn part_of(t: Seq<char>, part: Seq<char>) -> Option<Seq<char>> {
    fold(usplits(t, ','), usplits(t, ',').len() as int, None, in_elements(part))
}
pub proof fn lemma_found(ps: Seq<Seq<char>>, k: int, n: int, acc: Option<Seq<char>>, part: Seq<char>)
    requires 0 <= k <= n, fold(ps, k, acc, in_pairs(part)) is Some,
    ensures fold(ps, n, acc, in_pairs(part)) == fold(ps, k, acc, in_pairs(part)),
    decreases n,
{ if k < n { lemma_found(ps, k, n - 1, acc, part); } }
pub proof fn lemma_found_all(es: Seq<Seq<char>>, k: int, n: int, part: Seq<char>)
    requires 0 <= k <= n, fold(es, k, None, in_elements(part)) is Some,
    ensures fold(es, n, None, in_elements(part)) == fold(es, k, None, in_elements(part)),
    decreases n,
{
    if k < n {
        lemma_found_all(es, k, n - 1, part);
        let a = fold(es, n - 1, None, in_elements(part));
        let e = es[n - 1];
        assert(fold(usplits(e, ';'), 0, a, in_pairs(part)) == a);
        lemma_found(usplits(e, ';'), 0, usplits(e, ';').len() as int, a, part);
    }
}
// the first value of a header
pub open spec fn first_value(m: Map<Seq<char>, Seq<Seq<char>>>, n: Seq<char>) -> Option<Seq<char>> { if m.dom().contains(n) { Some(m[n][0]) } else { None } }
// the first entry of a comma-separated value
pub open spec fn first_entry(t: Option<Seq<char>>) -> Option<Seq<char>> { match t { Some(x) => Some(splits(x, ',')[0]), None => None } }
pub open spec fn fwd(m: Map<Seq<char>, Seq<Seq<char>>>, part: Seq<char>) -> Option<Seq<char>> {
    match first_value(m, "forwarded"@) { Some(t) => part_of(t, part), None => None }
}
pub open spec fn or(a: Option<Seq<char>>, b: Option<Seq<char>>) -> Option<Seq<char>> { if a is Some { a } else { b } }
pub open spec fn host_of(m: Map<Seq<char>, Seq<Seq<char>>>, url: Url) -> Option<Seq<char>> {
    or(fwd(m, "host"@), or(first_entry(first_value(m, "x-forwarded-host"@)), or(first_value(m, "host"@), url_host(url))))
}
pub open spec fn remote_of(m: Map<Seq<char>, Seq<Seq<char>>>, peer: Option<Seq<char>>) -> Option<Seq<char>> {
    or(fwd(m, "for"@), or(first_entry(first_value(m, "x-forwarded-for"@)), peer))
}
// TRUSTED: comparing and cutting text.
#[verifier::external_body]
pub fn str_eq_ignore_case(a: &str, b: &str) -> (r: bool) ensures r == (lower(a@) == lower(b@)) { a.eq_ignore_ascii_case(b) }
#[verifier::external_body]
pub fn str_strip_suffix_char(s: &str, c: char) -> (r: Option<&str>)
    ensures match r {
        Some(t) => s@.len() > 0 && s@.last() == c && t@ == s@.subrange(0, s@.len() - 1),
        None => s@.len() == 0 || s@.last() != c,
    },
{ s.strip_suffix(c) }
#[verifier::external_body]
pub fn str_split_once<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures match r {
        Some((a, b)) => first(s@, is_char(c)) < s@.len() && a@ == s@.subrange(0, first(s@, is_char(c))) && b@ == s@.subrange(first(s@, is_char(c)) + 1, s@.len() as int),
        None => first(s@, is_char(c)) == s@.len(),
    },
{ s.split_once(c) }
pub fn host_name() -> (r: &'static str) ensures r@ == "host"@ { "host" }
pub proof fn lemma_lower_names()
    ensures
        lower("Forwarded"@) == "forwarded"@, lower("X-Forwarded-Host"@) == "x-forwarded-host"@, lower("X-Forwarded-For"@) == "x-forwarded-for"@, lower("host"@) == "host"@,
        ascii_chars("Forwarded"@), ascii_chars("X-Forwarded-Host"@), ascii_chars("X-Forwarded-For"@), ascii_chars("host"@),
{
    reveal_strlit("Forwarded"); reveal_strlit("forwarded"); reveal_strlit("X-Forwarded-Host"); reveal_strlit("x-forwarded-host"); reveal_strlit("X-Forwarded-For"); reveal_strlit("x-forwarded-for"); reveal_strlit("host");
    assert(lower("Forwarded"@) =~= "forwarded"@); assert(lower("X-Forwarded-Host"@) =~= "x-forwarded-host"@); assert(lower("X-Forwarded-For"@) =~= "x-forwarded-for"@); assert(lower("host"@) =~= "host"@);
}
//@ fn src/request.rs Request::forwarded_header_part
//@ ret r
ensures opt_str(r) == fwd(htexts(&self.headers), part@),
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "pair.split_once('=')" => "str_split_once(pair, '=')"
//@ rewrite "key.trim().eq_ignore_ascii_case(part)" => "str_eq_ignore_case(str_trim(key), part)"
//@ rewrite "value.trim()" => "str_trim(value)"
//@ rewrite "value.strip_prefix('\"')" => "str_strip_prefix_char(value, '\"')"
//@ rewrite "v.strip_suffix('\"')" => "str_strip_suffix_char(v, '\"')"
//@ closure 0 types="&str" ret="t: Option<&str>"
ensures match t { Some(x) => v@.len() > 0 && v@.last() == '"' && x@ == v@.subrange(0, v@.len() - 1), None => v@.len() == 0 || v@.last() != '"' },
//@ at start
proof { lemma_lower_names(); }
//@ loop 0 it=it
invariant
    vtexts(it.seq()) == usplits(header.inner@[0].inner@, ','),
    fold(usplits(header.inner@[0].inner@, ','), it.index@, None, in_elements(part@)) is None,
//@ at loop 0 start
let ghost es = usplits(header.inner@[0].inner@, ',');
let ghost n = it.index@;
let ghost ps = usplits(element@, ';');
proof { assert(vtexts(it.seq())[n] == element@); }
//@ loop 1 it=it2
invariant
    vtexts(it2.seq()) == ps,
    fold(ps, it2.index@, None, in_pairs(part@)) is None,
//@ at loop 1 start
let ghost m = it2.index@;
proof {
    assert(vtexts(it2.seq())[m] == pair@);
    lemma_first(pair@, is_char('='));
    assert(fold(ps, m + 1, None, in_pairs(part@)) == pair_of(pair@, part@));
    if pair_of(pair@, part@) is Some {
        lemma_found(ps, m + 1, ps.len() as int, None, part@);
        assert(fold(es, n + 1, None, in_elements(part@)) == pair_of(pair@, part@));
        lemma_found_all(es, n + 1, es.len() as int, part@);
    }
}
//@ at loop 1 after
proof { assert(fold(es, n + 1, None, in_elements(part@)) == fold(ps, ps.len() as int, None, in_pairs(part@))); }
//@ end
//@ fn src/request.rs Request::forwarded_for
//@ ret r
ensures opt_str(r) == or(fwd(htexts(&self.headers), "for"@), first_entry(first_value(htexts(&self.headers), "x-forwarded-for"@))),
//@ at start
proof { lemma_lower_names(); }
//@ rewrite "header.as_str().split(',').next()" => "Parts::new(header.as_str(), ',').next()"
//@ closure 0 types="" ret="t: Option<&str>"
ensures opt_str(t) == first_entry(first_value(htexts(&self.headers), "x-forwarded-for"@)),
//@ closure 1 types="&HeaderValues" ret="u: Option<&str>"
requires header.inner@.len() > 0
ensures u is Some && (u->0)@ == splits(header.inner@[0].inner@, ',')[0],
//@ end
//@ fn src/request.rs Request::remote
//@ ret r
ensures opt_str(r) == remote_of(htexts(&self.headers), opt_text(self.peer_addr)),
//@ closure 0 types="" ret="t: Option<&str>"
ensures opt_str(t) == opt_text(self.peer_addr),
//@ end
//@ fn src/request.rs Request::host
//@ ret r
ensures opt_str(r) == host_of(htexts(&self.headers), self.url),
//@ at start
proof { lemma_lower_names(); }
//@ rewrite "h.as_str().split(',').next()" => "Parts::new(h.as_str(), ',').next()"
//@ rewrite "&headers::HOST" => "host_name()"
//@ closure 0 types="" ret="t: Option<&str>"
ensures opt_str(t) == first_entry(first_value(htexts(&self.headers), "x-forwarded-host"@)),
//@ closure 1 types="&HeaderValues" ret="u: Option<&str>"
requires h.inner@.len() > 0
ensures u is Some && (u->0)@ == splits(h.inner@[0].inner@, ',')[0],
//@ closure 2 types="" ret="t: Option<&str>"
ensures opt_str(t) == first_value(htexts(&self.headers), "host"@),
//@ closure 3 types="&HeaderValues" ret="u: &str"
requires h.inner@.len() > 0
ensures u@ == h.inner@[0].inner@,
//@ closure 4 types="" ret="t: Option<&str>"
ensures opt_str(t) == url_host(self.url),
//@ end
}
fn main() {}
