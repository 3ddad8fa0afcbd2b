// TRUSTED stand-in for url::Url: reading and writing URLs; what Url writes is ASCII without white space.
pub struct Url { pub x: u8 }
pub uninterp spec fn url_of(s: Seq<char>) -> Option<Url>;
pub uninterp spec fn url_text(u: Url) -> Seq<char>;
pub open spec fn urlc(c: char) -> bool { 0x21 <= c as u32 && c as u32 <= 0x7E }
pub broadcast axiom fn axiom_url_text(u: Url)
    ensures (#[trigger] url_text(u)).len() > 0, forall|i: int| 0 <= i < url_text(u).len() ==> urlc(#[trigger] url_text(u)[i]), url_of(url_text(u)) == Some(u);
impl Url {
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<Url, ()>) ensures match url_of(s@) { Some(u) => r == Ok::<Url, ()>(u), None => r is Err } { unimplemented!() }
}
impl Show for Url { open spec fn shown(&self) -> Seq<char> { url_text(*self) } }
