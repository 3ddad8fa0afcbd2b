//@ item {{F}} struct {{T}} #[derive(Structural, PartialEq, Eq)]
//@ fn {{F}} {{T}}::{{NEW}}
//@ ret r
ensures r.instant == instant,
//@ end
//@ fn {{F}} {{T}}::{{GET}}
//@ ret r
ensures r == self.instant,
//@ end
//@ fn {{F}} {{T}}::from_headers
//@ ret r
ensures
    match header_values(headers, "{{H}}"@) {
        None => r == Ok::<Option<{{T}}>, Error>(None),
        Some(vs) => match instant(vs.last().inner@) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(n) => r is Ok && r->Ok_0 is Some && secs((r->Ok_0->0).instant) == n,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get({{C}})" => "header_get(headers, \"{{H}}\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ end
impl {{T}} {
//@ fn {{F}} <{{T}} as Header>::header_value
//@ bare
//@ ret r
requires writable(self.instant),
ensures r.inner@ == date_text(day_of(secs(self.instant))), instant(r.inner@) == Some(secs(self.instant)),
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
proof { axiom_dates(secs(self.instant)); }
//@ end
}
