//@ # P19: Expect, Referer, SourceMap, Content-Location, Content-Type.
//@ include hdr.inc
//@ include nums.inc
//@ include hmap.inc
//@ include urls.inc
// what converts into a URL, by its result
pub trait UrlLike: Sized {
    spec fn url(self) -> Option<Url>;
    fn try_into(self) -> (r: Result<Url, ()>) ensures match self.url() { Some(u) => r == Ok::<Url, ()>(u), None => r is Err };
}
// TRUSTED: url's reference resolution; an absolute URL resolves to itself against any base.
pub uninterp spec fn url_join(b: Url, s: Seq<char>) -> Option<Url>;
pub axiom fn axiom_join_absolute(b: Url, u: Url) ensures url_join(b, url_text(u)) == Some(u);
impl Url {
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: Result<Url, ()>) ensures match url_join(*self, s@) { Some(u) => r == Ok::<Url, ()>(u), None => r is Err } { unimplemented!() }
}
// an absolute URL, or one relative to the base
pub open spec fn resolved(base: Option<Url>, s: Seq<char>) -> Option<Url> {
    match url_of(s) { Some(u) => Some(u), None => match base { Some(b) => url_join(b, trim(s)), None => None } }
}
//@ include link_header.inc F=src/other/referer.rs T=Referer H=referer C=REFERER
//@ include link_header.inc F=src/other/source_map.rs T=SourceMap H=sourcemap C=SOURCE_MAP
//@ item src/content/content_location.rs struct ContentLocation
//@ fn src/content/content_location.rs ContentLocation::new
//@ ret r
ensures r.url == url,
//@ end
//@ fn src/content/content_location.rs ContentLocation::location
//@ ret r
ensures *r == self.url,
//@ end
//@ fn src/content/content_location.rs ContentLocation::set_location
requires location.url() is Some,
ensures Some(final(self).url) == location.url(),
//@ rewrite "U: TryInto<Url>,\n        U::Error: std::fmt::Debug," => "U: UrlLike,"
//@ end
//@ fn src/content/content_location.rs ContentLocation::from_headers
//@ ret r
ensures
    match header_values(headers, "content-location"@) {
        None => r == Ok::<Option<ContentLocation>, Error>(None),
        Some(vs) => match base_url.url() {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(b) => match url_join(b, trim(vs.last().inner@)) {
                Some(u) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).url == u,
                None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            },
        },
    },
//@ rewrite "U: TryInto<Url>,\n        U::Error: std::fmt::Debug," => "U: UrlLike,"
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(CONTENT_LOCATION)" => "header_get(headers, \"content-location\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ rewrite "value.as_str().trim()" => "str_trim(value.as_str())"
//@ rewrite "bail!(" => "bail_status!("
//@ end
impl ContentLocation {
//@ fn src/content/content_location.rs <ContentLocation as Header>::header_value
//@ bare
//@ ret r
ensures r.inner@ == url_text(self.url), forall|b: Url| url_join(b, trim(r.inner@)) == Some(self.url),
//@ rewrite "self.url.to_string()" => "vx_to_string(&self.url)"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use {axiom_utf8_ascii, axiom_url_text, axiom_white};
proof {
    let t = url_text(self.url);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 by { assert(urlc(t[i])); }
    assert(urlc(t[0]) && urlc(t[t.len() - 1]));
    lemma_trim_id(t);
    assert forall|b: Url| url_join(b, trim(t)) == Some(self.url) by { axiom_join_absolute(b, self.url); }
}
//@ end
}
// Expect
//@ item src/other/expect.rs struct Expect
//@ fn src/other/expect.rs Expect::new
//@ end
//@ fn src/other/expect.rs Expect::from_headers
//@ ret r
ensures
    match header_values(headers, "expect"@) {
        None => r == Ok::<Option<Expect>, Error>(None),
        Some(vs) => if vs.last().inner@ == "100-continue"@ { r is Ok && r->Ok_0 is Some } else { r is Err && (r->Err_0).status == StatusCode::BadRequest },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(EXPECT)" => "header_get(headers, \"expect\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ rewrite "ensure_eq_status!(header, \"100-continue\"," => "ensure_eq_status!(header.as_str(), \"100-continue\","
//@ at start
broadcast use axiom_str_ext;
//@ end
impl Expect {
//@ fn src/other/expect.rs <Expect as Header>::header_value
//@ bare
//@ ret r
ensures r.inner@ == "100-continue"@,
//@ rewrite "value.into()" => "value.to_string().into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
proof { reveal_strlit("100-continue"); }
//@ end
}
// Content-Type. TRUSTED: reading and writing media types (unit mime).
pub struct Mime { pub x: u8 }
pub uninterp spec fn mime_text(m: Mime) -> Seq<char>;
pub uninterp spec fn mime_of(t: Seq<char>) -> Option<Mime>;
impl Show for Mime { open spec fn shown(&self) -> Seq<char> { mime_text(*self) } }
impl Mime {
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: CrateResult<Mime>) ensures match mime_of(s@) { Some(m) => r == Ok::<Mime, Error>(m), None => r is Err } { unimplemented!() }
}
pub trait MimeLike: Sized {
    spec fn mime(self) -> Option<Mime>;
    fn try_into(self) -> (r: Result<Mime, ()>) ensures match self.mime() { Some(m) => r == Ok::<Mime, ()>(m), None => r is Err };
}
//@ item src/content/content_type.rs struct ContentType
//@ fn src/content/content_type.rs ContentType::new
//@ ret r
requires media_type.mime() is Some,
ensures Some(r.media_type) == media_type.mime(),
//@ rewrite "U: TryInto<Mime>,\n        U::Error: std::fmt::Debug," => "U: MimeLike,"
//@ end
//@ fn src/content/content_type.rs ContentType::from_headers
//@ ret r
ensures
    match header_values(headers, "content-type"@) {
        None => r == Ok::<Option<ContentType>, Error>(None),
        Some(vs) => match mime_of(vs.last().inner@) {
            Some(m) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).media_type == m,
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(CONTENT_TYPE)" => "header_get(headers, \"content-type\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ closure 0 types="Error" ret="y: Error"
ensures y.status == StatusCode::BadRequest,
//@ end
impl ContentType {
//@ fn src/content/content_type.rs <ContentType as Header>::header_value
//@ bare
//@ ret r
requires ascii_chars(mime_text(self.media_type)),
ensures r.inner@ == mime_text(self.media_type),
//@ fmt
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
//@ at tail
proof { assert(output@ =~= mime_text(self.media_type)); }
//@ end
//@ fn src/content/content_type.rs <ContentType as From<Mime>>::from
//@ bare
//@ ret r
ensures r.media_type == media_type,
//@ end
}
}
fn main() {}
