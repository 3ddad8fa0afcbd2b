//@ item {{F}} struct {{T}}
//@ fn {{F}} {{T}}::new
//@ ret r
ensures r.location == location,
//@ end
//@ fn {{F}} {{T}}::location
//@ ret r
ensures *r == self.location,
//@ end
//@ fn {{F}} {{T}}::set_location
//@ ret r
ensures match location.url() { Some(u) => r is Ok && final(self).location == u, None => r is Err && final(self).location == old(self).location },
//@ rewrite "U: TryInto<Url>,\n        U::Error: std::fmt::Debug," => "U: UrlLike,"
//@ rewrite "Result<(), U::Error>" => "Result<(), ()>"
//@ end
//@ fn {{F}} {{T}}::from_headers
//@ ret r
ensures
    match header_values(headers, "{{H}}"@) {
        None => r == Ok::<Option<{{T}}>, Error>(None),
        Some(vs) => match resolved(base_url.url(), vs.last().inner@) {
            Some(u) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).location == u,
            None => r is Err && (r->Err_0).status == StatusCode::InternalServerError,
        },
    },
//@ rewrite "U: TryInto<Url>,\n        U::Error: std::fmt::Debug," => "U: UrlLike,"
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get({{C}})" => "header_get(headers, \"{{H}}\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ rewrite "header_value.as_str().trim()" => "str_trim(header_value.as_str())"
//@ rewrite "bail!(" => "bail_status!("
//@ end
impl {{T}} {
//@ fn {{F}} <{{T}} as Header>::header_value
//@ bare
//@ ret r
ensures r.inner@ == url_text(self.location), forall|b: Option<Url>| resolved(b, r.inner@) == Some(self.location),
//@ rewrite "self.location.to_string()" => "vx_to_string(&self.location)"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use {axiom_utf8_ascii, axiom_url_text};
proof { let t = url_text(self.location); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 by { assert(urlc(t[i])); } }
//@ end
}
