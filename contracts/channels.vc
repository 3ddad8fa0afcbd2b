//@ # P18: trailers and upgraded connections.
//@ include message_types.inc
// TRUSTED: async_channel. What a call did is recorded as a fact: `delivered` for a send, `step` for a poll.
pub uninterp spec fn delivered<T>(s: async_channel::Sender<T>, x: T) -> bool;
pub uninterp spec fn step<T>(a: async_channel::Receiver<T>, b: async_channel::Receiver<T>, r: Poll<Option<T>>) -> bool;
impl<T> async_channel::Sender<T> {
    #[verifier::external_body]
    pub fn send(&self, x: T) -> (r: Result<(), ()>) ensures delivered(*self, x) { unimplemented!() }
}
impl<T> async_channel::Receiver<T> {
    #[verifier::external_body]
    pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<T>>) ensures step(*old(self), *final(self), r) { unimplemented!() }
}
impl trailers::Sender {
//@ fn src/trailers.rs Sender::send
//@ bare
ensures delivered(self.sender, trailers),
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ end
}
impl trailers::Receiver {
//@ fn src/trailers.rs <Receiver as Future>::poll
//@ bare
//@ ret r
ensures step(old(self).receiver, final(self).receiver, r),
//@ rewrite "mut self: Pin<&mut Self>" => "&mut self"
//@ rewrite "&mut Context<'_>" => "&mut Context"
//@ rewrite "Poll<Self::Output>" => "Poll<Option<Trailers>>"
//@ rewrite "Pin::new(&mut self.receiver)" => "self.receiver"
//@ end
}
// Trailers are a header map.
//@ fn src/trailers.rs Trailers::new
//@ ret r
ensures htexts(&r.headers) == Map::<Seq<char>, Seq<Seq<char>>>::empty(),
//@ end
//@ fn src/trailers.rs Trailers::insert
//@ ret r
requires name.good(),
ensures match values.value() {
    Some(t) => r is Ok && htexts(&final(self).headers) == htexts(&old(self).headers).insert(name.name(), seq![t]),
    None => r is Err && htexts(&final(self).headers) == htexts(&old(self).headers),
},
//@ rewrite "impl Into<HeaderName>" => "impl NameLike"
//@ rewrite "impl ToHeaderValues" => "impl ValueLike"
//@ end
//@ fn src/trailers.rs Trailers::append
//@ ret r
requires name.good(),
ensures match values.value() {
    Some(t) => r is Ok && htexts(&final(self).headers) == htexts(&old(self).headers).insert(name.name(), hvals(htexts(&old(self).headers), name.name()).push(t)),
    None => r is Err && htexts(&final(self).headers) == htexts(&old(self).headers),
},
//@ rewrite "impl Into<HeaderName>" => "impl NameLike"
//@ rewrite "impl ToHeaderValues" => "impl ValueLike"
//@ end
//@ fn src/trailers.rs Trailers::get
//@ ret r
requires name.good(),
ensures match r {
    Some(v) => htexts(&self.headers).dom().contains(name.name()) && texts(v.inner@) == htexts(&self.headers)[name.name()] && v.inner@.len() > 0,
    None => !htexts(&self.headers).dom().contains(name.name()),
},
//@ rewrite "impl Into<HeaderName>" => "impl NameLike"
//@ end
//@ fn src/trailers.rs Trailers::get_mut
//@ ret r
requires name.good(),
ensures match r {
    Some(v) => {
        &&& htexts(&old(self).headers).dom().contains(name.name()) && texts(v.inner@) == htexts(&old(self).headers)[name.name()]
        &&& htexts(&final(self).headers) == htexts(&old(self).headers).insert(name.name(), texts(final(v).inner@))
    },
    None => !htexts(&old(self).headers).dom().contains(name.name()) && htexts(&final(self).headers) == htexts(&old(self).headers),
},
//@ rewrite "impl Into<HeaderName>" => "impl NameLike"
//@ end
//@ fn src/trailers.rs Trailers::remove
//@ ret r
requires name.good(),
ensures htexts(&final(self).headers) == htexts(&old(self).headers).remove(name.name()),
//@ rewrite "impl Into<HeaderName>" => "impl NameLike"
//@ end
//@ include headers_iter.inc
//@ fn src/trailers.rs Trailers::iter
//@ ret r
ensures r.over() == self.headers,
//@ end
//@ fn src/trailers.rs Trailers::iter_mut
//@ ret r
ensures r.over() == old(self).headers, r.later() == final(self).headers,
//@ end
//@ fn src/trailers.rs Trailers::names
//@ ret r
ensures r.over() == self.headers,
//@ end
//@ fn src/trailers.rs Trailers::values
//@ ret r
ensures r.over() == self.headers,
//@ end
impl Trailers {
//@ fn src/trailers.rs <Trailers as Clone>::clone
//@ bare
//@ ret r
ensures htexts(&r.headers) == htexts(&self.headers),
//@ rewrite "Headers {\n                headers: self.headers.headers.clone(),\n            }" => "clone_map(&self.headers)"
//@ end
//@ fn src/trailers.rs <Trailers as Deref>::deref
//@ bare
//@ ret r
ensures *r == self.headers,
//@ rewrite "&Self::Target" => "&Headers"
//@ end
//@ fn src/trailers.rs <Trailers as DerefMut>::deref_mut
//@ bare
//@ ret r
ensures *r == old(self).headers, final(self).headers == *final(r),
//@ rewrite "&mut Self::Target" => "&mut Headers"
//@ end
//@ fn src/trailers.rs <Trailers as Index<HeaderName>>::index
//@ bare
//@ rename index_name
//@ ret r
requires htexts(&self.headers).dom().contains(name.name()),
ensures texts(r.inner@) == htexts(&self.headers)[name.name()],
//@ end
//@ fn src/trailers.rs <Trailers as Index<&str>>::index
//@ bare
//@ rename index_str
//@ ret r
requires name.good(), htexts(&self.headers).dom().contains(name.name()),
ensures texts(r.inner@) == htexts(&self.headers)[name.name()],
//@ end
}
// TRUSTED: cloning the map inside Headers clones the header collection.
#[verifier::external_body]
pub fn clone_map(h: &Headers) -> (r: Headers) ensures htexts(&r) == htexts(h) { unimplemented!() }

pub mod upgrade {
    use vstd::prelude::*;
    use super::*;
    verus! {
    // TRUSTED stand-in for Box<dyn InnerConnection>: each poll's effect is recorded as a fact.
    #[verifier::external_body]
    pub struct Wire { x: u8 }
    pub uninterp spec fn read_of(a: Wire, b: Wire, x: Seq<u8>, y: Seq<u8>, r: Poll<io::Result<usize>>) -> bool;
    pub uninterp spec fn write_of(a: Wire, b: Wire, x: Seq<u8>, r: Poll<io::Result<usize>>) -> bool;
    pub uninterp spec fn flush_of(a: Wire, b: Wire, r: Poll<io::Result<()>>) -> bool;
    pub uninterp spec fn close_of(a: Wire, b: Wire, r: Poll<io::Result<()>>) -> bool;
    impl Wire {
        #[verifier::external_body]
        pub fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<io::Result<usize>>) ensures read_of(*old(self), *final(self), old(buf)@, final(buf)@, r) { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<io::Result<usize>>) ensures write_of(*old(self), *final(self), buf@, r) { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>) ensures flush_of(*old(self), *final(self), r) { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>) ensures close_of(*old(self), *final(self), r) { unimplemented!() }
    }
    //@ item src/upgrade/connection.rs struct Connection
    //@ item-rewrite "Box<dyn InnerConnection>" => "Wire"
    //@ item src/upgrade/sender.rs struct Sender
    //@ item src/upgrade/receiver.rs struct Receiver
    impl Connection {
    //@ fn src/upgrade/connection.rs <Connection as AsyncRead>::poll_read
    //@ bare
    //@ ret r
    ensures read_of(old(self).inner, final(self).inner, old(buf)@, final(buf)@, r),
    //@ rewrite "mut self: Pin<&mut Self>" => "&mut self"
    //@ rewrite "&mut Context<'_>" => "&mut Context"
    //@ rewrite "Pin::new(&mut self.inner)" => "self.inner"
    //@ end
    //@ fn src/upgrade/connection.rs <Connection as AsyncWrite>::poll_write
    //@ bare
    //@ ret r
    ensures write_of(old(self).inner, final(self).inner, buf@, r),
    //@ rewrite "mut self: Pin<&mut Self>" => "&mut self"
    //@ rewrite "&mut Context<'_>" => "&mut Context"
    //@ rewrite "Pin::new(&mut self.inner)" => "self.inner"
    //@ end
    //@ fn src/upgrade/connection.rs <Connection as AsyncWrite>::poll_flush
    //@ bare
    //@ ret r
    ensures flush_of(old(self).inner, final(self).inner, r),
    //@ rewrite "mut self: Pin<&mut Self>" => "&mut self"
    //@ rewrite "&mut Context<'_>" => "&mut Context"
    //@ rewrite "Pin::new(&mut self.inner)" => "self.inner"
    //@ end
    //@ fn src/upgrade/connection.rs <Connection as AsyncWrite>::poll_close
    //@ bare
    //@ ret r
    ensures close_of(old(self).inner, final(self).inner, r),
    //@ rewrite "mut self: Pin<&mut Self>" => "&mut self"
    //@ rewrite "&mut Context<'_>" => "&mut Context"
    //@ rewrite "Pin::new(&mut self.inner)" => "self.inner"
    //@ end
    }
    //@ fn src/upgrade/sender.rs Sender::new
    //@ ret r
    ensures r.sender == sender,
    //@ end
    //@ fn src/upgrade/receiver.rs Receiver::new
    //@ ret r
    ensures r.receiver == receiver,
    //@ end
    impl Sender {
    //@ fn src/upgrade/sender.rs Sender::send
    //@ bare
    ensures delivered(self.sender, conn),
    //@ rewrite "async fn" => "fn"
    //@ rewrite ".await" => ""
    //@ end
    }
    impl Receiver {
    //@ fn src/upgrade/receiver.rs <Receiver as Future>::poll
    //@ bare
    //@ ret r
    ensures step(old(self).receiver, final(self).receiver, r),
    //@ rewrite "mut self: Pin<&mut Self>" => "&mut self"
    //@ rewrite "&mut Context<'_>" => "&mut Context"
    //@ rewrite "Poll<Self::Output>" => "Poll<Option<Connection>>"
    //@ rewrite "Pin::new(&mut self.receiver)" => "self.receiver"
    //@ end
    }
    }
}
}
fn main() {}
