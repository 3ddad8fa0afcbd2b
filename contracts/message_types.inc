//@ include hdr.inc
//@ include hmap.inc
use std::mem;
use std::task::Poll;
use std::io;
//@ item src/version.rs enum Version #[derive(Clone, Copy)]
#[verifier::external_type_specification]
#[verifier::accept_recursive_types(T)]
pub struct ExPoll<T>(Poll<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
pub struct Context { pub x: u8 }
pub assume_specification<T> [mem::replace] (d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;
// TRUSTED stand-ins: a Mime (equality and Clone agree), its text, and reading one (unit mime).
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Mime { pub id: u64 }
pub uninterp spec fn mime_text(m: Mime) -> Seq<char>;
pub uninterp spec fn mime_of(t: Seq<char>) -> Option<Mime>;
impl Show for Mime { open spec fn shown(&self) -> Seq<char> { mime_text(*self) } }
pub fn cloned_mime(m: Option<&Mime>) -> (r: Option<Mime>) ensures r == (match m { Some(x) => Some(*x), None => None }) { match m { Some(x) => Some(*x), None => None } }
// TRUSTED stand-in for Body (unit body): its media type, its declared length, and what reading it does.
#[verifier::external_body]
pub struct Body { x: u8 }
pub uninterp spec fn string_read(b: Body, r: CrateResult<String>) -> bool;
pub uninterp spec fn bytes_read(b: Body, r: CrateResult<Vec<u8>>) -> bool;
pub uninterp spec fn json_read<T>(b: Body, r: CrateResult<T>) -> bool;
pub uninterp spec fn form_read<T>(b: Body, r: CrateResult<T>) -> bool;
pub uninterp spec fn read_step(b: Body, c: Body, buf: Seq<u8>, cuf: Seq<u8>, r: Poll<io::Result<usize>>) -> bool;
pub uninterp spec fn fill_step(b: Body, c: Body, r: Poll<io::Result<&[u8]>>) -> bool;
pub uninterp spec fn consume_step(b: Body, c: Body, n: usize) -> bool;
impl Body {
    pub uninterp spec fn mime_of_body(&self) -> Option<Mime>;
    pub uninterp spec fn length(&self) -> Option<u64>;
    // no bytes, length 0, and the media type of raw bytes
    pub uninterp spec fn blank(&self) -> bool;
    #[verifier::external_body]
    pub fn empty() -> (r: Body) ensures r.blank() { unimplemented!() }
    #[verifier::external_body]
    pub fn mime(&self) -> (r: Option<&Mime>) ensures match r { Some(m) => self.mime_of_body() == Some(*m), None => self.mime_of_body() is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: Option<u64>) ensures r == self.length() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: Option<bool>) ensures r == (match self.length() { Some(l) => Some(l == 0), None => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_string(self) -> (r: CrateResult<String>) ensures string_read(self, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: CrateResult<Vec<u8>>) ensures bytes_read(self, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_json<T>(self) -> (r: CrateResult<T>) ensures json_read(self, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_form<T>(self) -> (r: CrateResult<T>) ensures form_read(self, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<io::Result<usize>>) ensures read_step(*old(self), *final(self), old(buf)@, final(buf)@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_fill_buf(&mut self, cx: &mut Context) -> (r: Poll<io::Result<&[u8]>>) ensures fill_step(*old(self), *final(self), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn consume(&mut self, amt: usize) ensures consume_step(*old(self), *final(self), amt) { unimplemented!() }
}
// The headers of a message that was given this body: its media type becomes the Content-Type of a
// message without one.
pub open spec fn synced(m: Map<Seq<char>, Seq<Seq<char>>>, b: Body) -> Map<Seq<char>, Seq<Seq<char>>> {
    match b.mime_of_body() {
        Some(t) => if m.dom().contains("content-type"@) { m } else { m.insert("content-type"@, seq![mime_text(t)]) },
        None => m,
    }
}
// TRUSTED stand-ins: extensions (unit extensions) and async_channel's two ends.
#[verifier::external_body]
pub struct Extensions { x: u8 }
impl Extensions {
    pub uninterp spec fn none(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Extensions) ensures r.none() { unimplemented!() }
}
pub mod async_channel {
    use vstd::prelude::*;
    verus! {
    pub struct Sender<T> { pub id: Ghost<int>, pub x: Option<T> }
    pub struct Receiver<T> { pub id: Ghost<int>, pub x: Option<T> }
    impl<T> Sender<T> {
        pub uninterp spec fn capacity(&self) -> int;
    }
    impl<T> Clone for Sender<T> {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    impl<T> Clone for Receiver<T> {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn bounded<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) ensures r.0.id == r.1.id, r.0.capacity() == n { unimplemented!() }
    }
}
// TRUSTED (contracts discharged in unit headers_map): an empty map, lookup, and Clone.
impl Headers {
    #[verifier::external_body]
    pub fn new() -> (r: Headers) ensures htexts(&r) == Map::<Seq<char>, Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<N: NameLike>(&self, name: N) -> (r: Option<&HeaderValues>)
        requires name.good(),
        ensures match r {
            Some(v) => htexts(self).dom().contains(name.name()) && texts(v.inner@) == htexts(self)[name.name()] && v.inner@.len() > 0,
            None => !htexts(self).dom().contains(name.name()),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<N: NameLike>(&mut self, name: N) -> (r: Option<&mut HeaderValues>)
        requires name.good(),
        ensures match r {
            Some(v) => {
                &&& htexts(old(self)).dom().contains(name.name()) && texts(v.inner@) == htexts(old(self))[name.name()]
                &&& htexts(final(self)) == htexts(old(self)).insert(name.name(), texts(final(v).inner@))
            },
            None => !htexts(old(self)).dom().contains(name.name()) && htexts(final(self)) == htexts(old(self)),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn index<N: NameLike>(&self, name: N) -> (r: &HeaderValues)
        requires name.good(), htexts(self).dom().contains(name.name()),
        ensures texts(r.inner@) == htexts(self)[name.name()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Headers) ensures htexts(&r) == htexts(self) { unimplemented!() }
}
impl<'a> NameLike for &'a HeaderName {
    open spec fn good(self) -> bool { true }
    open spec fn name(self) -> Seq<char> { cowv(self.0) }
    #[verifier::external_body]
    fn into(self) -> HeaderName { unimplemented!() }
}
#[verifier::external_body]
pub fn content_type_name() -> (r: HeaderName) ensures r.name() == "content-type"@ { unimplemented!() }
impl HeaderValue {
//@ fn src/headers/header_value.rs <HeaderValue as From<Mime>>::from
//@ bare
//@ rename from_mime
//@ ret r
ensures r.inner@ == mime_text(mime),
//@ fmt
//@ end
}
impl HeaderValues {
    // deref to the first value
    pub fn as_str(&self) -> (r: &str) requires self.inner@.len() > 0 ensures r@ == self.inner@[0].inner@ { self.inner[0].as_str() }
    // last().as_str().parse().ok()
    #[verifier::external_body]
    pub fn vx_last_mime(&self) -> (r: Option<Mime>) requires self.inner@.len() > 0 ensures r == mime_of(self.inner@.last().inner@) { unimplemented!() }
}
pub open spec fn opt_text(d: Option<String>) -> Option<Seq<char>> { match d { Some(x) => Some(x@), None => None } }
pub open spec fn opt_str(d: Option<&str>) -> Option<Seq<char>> { match d { Some(x) => Some(x@), None => None } }
pub open spec fn shown_opt<T: Show>(d: Option<T>) -> Option<Seq<char>> { match d { Some(x) => Some(x.shown()), None => None } }
pub fn opt_as_deref<'a>(x: &'a Option<String>) -> (r: Option<&'a str>) ensures opt_str(r) == opt_text(*x) { match x { Some(s) => Some(s.as_str()), None => None } }
// TRUSTED: Option<String>::clone copies the text.
#[verifier::external_body]
pub fn clone_opt(x: &Option<String>) -> (r: Option<String>) ensures opt_text(r) == opt_text(*x) { x.clone() }
pub mod trailers {
    use vstd::prelude::*;
    use super::async_channel;
    use super::Trailers;
    verus! {
    //@ item src/trailers.rs struct Sender
    //@ item src/trailers.rs struct Receiver
    //@ fn src/trailers.rs Sender::new
    //@ ret r
    ensures r.sender == sender,
    //@ end
    //@ fn src/trailers.rs Receiver::new
    //@ ret r
    ensures r.receiver == receiver,
    //@ end
    }
}
//@ item src/trailers.rs struct Trailers
