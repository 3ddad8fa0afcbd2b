// TRUSTED: writing text. A Formatter (or String) collects the text written to it and does not fail;
// write!/format! with `{}` appends what the value's Display::fmt writes, which is the `shown` of that
// value: the fmt functions under contract are proved to write exactly that.
pub struct Formatter<'a> { pub out: Ghost<Seq<char>>, pub x: &'a u8 }
pub mod fmt { pub type Result = std::result::Result<(), std::fmt::Error>; pub use super::Formatter; }
pub trait Show { spec fn shown(&self) -> Seq<char>; }
impl Show for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Show for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a, T: Show + ?Sized> Show for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
pub trait Sink {
    spec fn text(&self) -> Seq<char>;
    fn vx_put(&mut self, s: &str) ensures final(self).text() == old(self).text() + s@;
    fn vx_show<T: Show + ?Sized>(&mut self, x: &T) ensures final(self).text() == old(self).text() + x.shown();
}
impl Sink for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_put(&mut self, s: &str) { self.push_str(s) }
    #[verifier::external_body]
    fn vx_show<T: Show + ?Sized>(&mut self, x: &T) { unimplemented!() }
}
impl<'a> Sink for Formatter<'a> {
    open spec fn text(&self) -> Seq<char> { self.out@ }
    #[verifier::external_body]
    fn vx_put(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_show<T: Show + ?Sized>(&mut self, x: &T) { unimplemented!() }
}
pub fn vx_fmt_ok() -> (r: Result<(), std::fmt::Error>) ensures r == Ok::<(), std::fmt::Error>(()) { Ok(()) }
// std's blanket ToString
pub fn vx_to_string<T: Show + ?Sized>(x: &T) -> (r: String) ensures r@ == x.shown()
{ let mut s = String::new(); s.vx_show(x); proof { assert(s@ =~= x.shown()); } s }
