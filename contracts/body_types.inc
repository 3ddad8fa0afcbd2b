use std::task::Poll;
use std::io;
#[allow(unused_macros)]
macro_rules! ready { ($e:expr $(,)?) => { match $e { ::core::task::Poll::Ready(t) => t, ::core::task::Poll::Pending => return ::core::task::Poll::Pending } } }
//@ include head.inc
#[verifier::external_type_specification]
#[verifier::accept_recursive_types(T)]
pub struct ExPoll<T>(Poll<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
// TRUSTED: `?` on a Poll<Result<..>> hands the error on.
pub assume_specification<T, E, F: From<E>> [<Poll<Result<T, F>> as std::ops::FromResidual<Result<std::convert::Infallible, E>>>::from_residual] (r: Result<std::convert::Infallible, E>) -> (p: Poll<Result<T, F>>)
    ensures p matches Poll::Ready(x) && x is Err;

pub struct Context { pub x: u8 }
// TRUSTED stand-ins: a Mime (equality and Clone agree) and the predefined constants.
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Mime { pub id: u64 }
pub uninterp spec fn BYTE_STREAM() -> Mime;
pub uninterp spec fn PLAIN() -> Mime;
pub uninterp spec fn JSON() -> Mime;
pub uninterp spec fn FORM() -> Mime;
pub mod mime {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub fn byte_stream() -> (r: super::Mime) ensures r == super::BYTE_STREAM() { unimplemented!() }
    #[verifier::external_body]
    pub fn plain() -> (r: super::Mime) ensures r == super::PLAIN() { unimplemented!() }
    #[verifier::external_body]
    pub fn json() -> (r: super::Mime) ensures r == super::JSON() { unimplemented!() }
    #[verifier::external_body]
    pub fn form() -> (r: super::Mime) ensures r == super::FORM() { unimplemented!() }
    }
}
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub assume_specification [String::into_bytes] (s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@);
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == utf8(s@).len();
pub assume_specification<T: Clone> [<[T] as ToOwned>::to_owned] (s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@;

// The boxed reader: `rest` is what it has still to give. Its polling contract is the one of
// AsyncRead/AsyncBufRead: an arbitrary amount per call, errors and Pending at any time.
#[verifier::external_body]
pub struct DynReader { x: u8 }
impl DynReader {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<io::Result<usize>>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            !(r matches Poll::Ready(Ok(_))) ==> final(self).rest() == old(self).rest(),
            r matches Poll::Ready(Ok(n)) ==> {
                &&& n <= old(buf)@.len() && n <= old(self).rest().len()
                &&& final(buf)@.subrange(0, n as int) == old(self).rest().subrange(0, n as int)
                &&& final(self).rest() == old(self).rest().skip(n as int)
                &&& n == 0 ==> old(buf)@.len() == 0 || old(self).rest().len() == 0
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_fill_buf(&mut self, cx: &mut Context) -> (r: Poll<io::Result<&[u8]>>)
        ensures
            final(self).rest() == old(self).rest(),
            r matches Poll::Ready(Ok(b)) ==> {
                &&& b@.len() <= old(self).rest().len()
                &&& b@ == old(self).rest().subrange(0, b@.len() as int)
                &&& b@.len() == 0 ==> old(self).rest().len() == 0
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn consume(&mut self, amt: usize)
        requires amt <= old(self).rest().len(),
        ensures final(self).rest() == old(self).rest().skip(amt as int),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn empty_reader() -> (r: DynReader) ensures r.rest() == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn cursor_reader(b: Vec<u8>) -> (r: DynReader) ensures r.rest() == b@ { unimplemented!() }
// TRUSTED: futures_lite's Chain gives all of the first reader, then all of the second.
#[verifier::external_body]
pub fn chain_reader(a: Body, b: Body) -> (r: DynReader)
    requires a.wf(), b.wf(),
    ensures r.rest() == a.rest() + b.rest()
{ unimplemented!() }

//@ item src/body.rs struct Body
//@ item-rewrite "Box<dyn AsyncBufRead + Unpin + Send + Sync + 'static>" => "DynReader"
// pin_project's projection: a mutable reference to every field.
pub struct BodyProjection<'a> { pub reader: &'a mut DynReader, pub mime: &'a mut Option<Mime>, pub length: &'a mut Option<u64>, pub bytes_read: &'a mut u64 }
impl Body {
    pub open spec fn wf(&self) -> bool { self.length matches Some(l) ==> self.bytes_read <= l }
    // What reading this body to its end gives.
    pub open spec fn rest(&self) -> Seq<u8> {
        match self.length {
            Some(l) => if l - self.bytes_read <= self.reader.rest().len() { self.reader.rest().subrange(0, l - self.bytes_read) } else { self.reader.rest() },
            None => self.reader.rest(),
        }
    }
    // TRUSTED bound: fewer than 2^64 bytes pass through one body.
    pub open spec fn countable(&self, n: int) -> bool { self.bytes_read + n <= u64::MAX }
}

pub fn project<'a>(b: &'a mut Body) -> (r: BodyProjection<'a>)
    ensures
        *r.reader == old(b).reader, *r.mime == old(b).mime, *r.length == old(b).length, *r.bytes_read == old(b).bytes_read,
        *final(b) == (Body { reader: *final(r.reader), mime: *final(r.mime), length: *final(r.length), bytes_read: *final(r.bytes_read) }),
{ BodyProjection { reader: &mut b.reader, mime: &mut b.mime, length: &mut b.length, bytes_read: &mut b.bytes_read } }

