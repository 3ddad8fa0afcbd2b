//@ # P08: the Forwarded header: which header is read, setting and reading fields, and what is written reads back.
//@ include hdr.inc
//@ include quoted.inc
//@ include forwarded_spec.inc

impl<'a> Show for Cow<'a, str> { open spec fn shown(&self) -> Seq<char> { cowt(*self) } }
// TRUSTED (contracts discharged in unit forwarded)
#[verifier::external_body]
pub fn format_value(input: &str) -> (r: Cow<'_, str>) ensures cowt(r) == fmt_value(input@) { unimplemented!() }
impl<'a> Forwarded<'a> {
    #[verifier::external_body]
    pub fn parse(input: &'a str) -> (r: Result<Self, ParseError>)
        ensures
            r matches Ok(f) ==> fwd(input@, no_fields()) == Some(f.fields()),
            r is Err ==> fwd(input@, no_fields()) is None,
    { unimplemented!() }
}
pub broadcast axiom fn axiom_cow_any<'b, 'a>(c: &'b Cow<'a, str>)
    ensures #![trigger cow_deref(c)] cow_deref(c)@ == cowt(*c);
// TRUSTED: Cow's conversions, Option::as_deref, String::pop.
#[verifier::external_body]
pub fn cow_str<'b, 'a>(c: &'b Cow<'a, str>) -> (r: &'b str) ensures r@ == cowt(*c) { c.as_ref() }
#[verifier::external_body]
pub fn cow_to_owned<'a>(c: Cow<'a, str>) -> (r: Cow<'static, str>) ensures cowt(r) == cowt(c) { Cow::Owned(c.into_owned()) }
#[verifier::external_body]
pub fn opt_cow<'b, 'a>(c: &'b Option<Cow<'a, str>>) -> (r: Option<&'b str>)
    ensures match r { Some(t) => *c is Some && t@ == cowt(c->0), None => *c is None }
{ c.as_deref() }
#[verifier::external_body]
pub fn string_pop(s: &mut String) ensures final(s)@ == (if old(s)@.len() > 0 { old(s)@.drop_last() } else { old(s)@ }) { s.pop(); }
#[verifier::external_body]
pub fn join_comma(Ghost(x): Ghost<Seq<Seq<char>>>, v: Vec<String>) -> (r: String)
    requires v@.map_values(|s: String| s@) =~= x,
    ensures r@ == joined(x),
 { v.join(", ") }
// TRUSTED: parsing and printing IP addresses.
pub struct V6 { pub x: u128 }
impl Show for V6 { uninterp spec fn shown(&self) -> Seq<char>; }
pub struct V4 { pub x: u32 }
pub enum IpAddr { V4(V4), V6(V6) }
pub uninterp spec fn ip(s: Seq<char>) -> Option<IpAddr>;
#[verifier::external_body]
pub fn parse_ip(s: &str) -> (r: Option<IpAddr>) ensures r == ip(s@) { unimplemented!() }

// --- setting and reading fields
//@ fn src/proxies/forwarded.rs Forwarded::add_for
ensures final(self).fields() == (F { fors: old(self).fields().fors.push(cowt(forwarded_for)), ..old(self).fields() }),
//@ rewrite "impl Into<Cow<'a, str>>" => "Cow<'a, str>"
//@ rewrite "forwarded_for.into()" => "forwarded_for"
//@ at end
assert(self.fields().fors =~= old(self).fields().fors.push(cowt(forwarded_for)));
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::forwarded_for
//@ ret r
ensures r@.map_values(|s: &str| s@) == self.fields().fors,
//@ rewrite "x.as_ref()" => "cow_str(x)"
//@ closure 0 types="&Cow<'a, str>" ret="y: &str"
ensures y@ == cowt(*x),
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::set_host
ensures final(self).fields() == (F { host: Some(cowt(host)), ..old(self).fields() }),
//@ rewrite "impl Into<Cow<'a, str>>" => "Cow<'a, str>"
//@ rewrite "host.into()" => "host"
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::host
//@ ret r
ensures match r { Some(t) => self.fields().host == Some(t@), None => self.fields().host is None },
//@ rewrite "self.host.as_deref()" => "opt_cow(&self.host)"
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::set_proto
ensures final(self).fields() == (F { proto: Some(cowt(proto)), ..old(self).fields() }),
//@ rewrite "impl Into<Cow<'a, str>>" => "Cow<'a, str>"
//@ rewrite "proto.into()" => "proto"
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::proto
//@ ret r
ensures match r { Some(t) => self.fields().proto == Some(t@), None => self.fields().proto is None },
//@ rewrite "self.proto.as_deref()" => "opt_cow(&self.proto)"
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::set_by
ensures final(self).fields() == (F { by: Some(cowt(by)), ..old(self).fields() }),
//@ rewrite "impl Into<Cow<'a, str>>" => "Cow<'a, str>"
//@ rewrite "by.into()" => "by"
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::by
//@ ret r
ensures match r { Some(t) => self.fields().by == Some(t@), None => self.fields().by is None },
//@ rewrite "self.by.as_deref()" => "opt_cow(&self.by)"
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::into_owned
//@ ret r
ensures
    r.fields().by == self.fields().by, r.fields().host == self.fields().host, r.fields().proto == self.fields().proto,
    r.fields().fors =~= self.fields().fors,
//@ rewrite "Cow::Owned(by.into_owned())" => "cow_to_owned(by)"
//@ rewrite "Cow::Owned(ff.into_owned())" => "cow_to_owned(ff)"
//@ rewrite "Cow::Owned(h.into_owned())" => "cow_to_owned(h)"
//@ rewrite "Cow::Owned(p.into_owned())" => "cow_to_owned(p)"
//@ closure 0 types="Cow<'a, str>" ret="y: Cow<'static, str>"
ensures cowt(y) == cowt(by),
//@ closure 1 types="Cow<'a, str>" ret="y: Cow<'static, str>"
ensures cowt(y) == cowt(ff),
//@ closure 2 types="Cow<'a, str>" ret="y: Cow<'static, str>"
ensures cowt(y) == cowt(h),
//@ closure 3 types="Cow<'a, str>" ret="y: Cow<'static, str>"
ensures cowt(y) == cowt(p),
//@ end

// --- reading: the Forwarded header, or the X-Forwarded-* headers
pub open spec fn first_value(h: &Headers, n: Seq<char>) -> Option<Seq<char>> {
    match header_values(h, n) { Some(v) => Some(v[0].inner@), None => None }
}
pub open spec fn node(s: Seq<char>) -> Seq<char> {
    let t = trim(s);
    match ip(t) { Some(IpAddr::V6(a)) => "["@ + a.shown() + "]"@, _ => t }
}
pub open spec fn nodes(s: Option<Seq<char>>) -> Seq<Seq<char>> {
    match s { Some(t) => splits(t, ',').map_values(|x: Seq<char>| node(x)), None => seq![] }
}
pub open spec fn x_fields(h: &Headers) -> F {
    F {
        by: first_value(h, "x-forwarded-by"@), fors: nodes(first_value(h, "x-forwarded-for"@)),
        host: first_value(h, "x-forwarded-host"@), proto: first_value(h, "x-forwarded-proto"@),
    }
}
//@ fn src/proxies/forwarded.rs Forwarded::from_forwarded_header
//@ ret r
ensures match first_value(headers, "forwarded"@) {
    None => r == Ok::<Option<Forwarded<'a>>, ParseError>(None),
    Some(t) => match fwd(t, no_fields()) { Some(f) => r is Ok && r->Ok_0 is Some && r->Ok_0->0.fields() == f, None => r is Err },
},
//@ rewrite "&'a impl AsRef<Headers>" => "&'a Headers"
//@ rewrite "headers.as_ref().get(FORWARDED)" => "header_get(headers, \"forwarded\")"
//@ rewrite "headers.as_ref().as_str()" => "headers[0].as_str()"
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::from_x_headers
//@ fmt
//@ ret r
ensures
    r is Ok,
    r->Ok_0 is None <==> x_fields(headers) == no_fields(),
    r->Ok_0 matches Some(f) ==> f.fields() == x_fields(headers),
//@ at start
proof { if let Some(t) = first_value(headers, "x-forwarded-for"@) { lemma_splits(t, ','); } }
//@ at tail
proof {
    let fs = forwarded_for@.map_values(|c: Cow<'a, str>| cowt(c));
    assert(fs =~= nodes(first_value(headers, "x-forwarded-for"@)));
    assert(fs.len() == forwarded_for@.len());
    assert(no_fields().fors.len() == 0);
    assert(x_fields(headers).fors.len() == 0 ==> x_fields(headers).fors =~= seq![]);
}
//@ rewrite "&'a impl AsRef<Headers>" => "&'a Headers"
//@ rewrite "let headers = headers.as_ref();" => ""
//@ rewrite "headers\n            .get(X_FORWARDED_FOR)" => "header_get(headers, \"x-forwarded-for\")"
//@ rewrite "headers\n            .get(X_FORWARDED_BY)" => "header_get(headers, \"x-forwarded-by\")"
//@ rewrite "headers\n            .get(X_FORWARDED_PROTO)" => "header_get(headers, \"x-forwarded-proto\")"
//@ rewrite "headers\n            .get(X_FORWARDED_HOST)" => "header_get(headers, \"x-forwarded-host\")"
//@ rewrite "hv.as_str()\n                    .split(',')" => "str_split(hv[0].as_str(), ',').into_iter()"
//@ rewrite "Cow::Borrowed(hv.as_str())" => "cow_borrowed(hv[0].as_str())"
//@ rewrite "Cow::Borrowed(p.as_str())" => "cow_borrowed(p[0].as_str())"
//@ rewrite "Cow::Borrowed(h.as_str())" => "cow_borrowed(h[0].as_str())"
//@ rewrite "v.trim()" => "str_trim(v)"
//@ rewrite "v.parse::<IpAddr>().ok()" => "parse_ip(v)"
//@ rewrite "Cow::Owned(" => "cow_owned("
//@ rewrite "Cow::Borrowed(v)" => "cow_borrowed(v)"
//@ rewrite ".unwrap_or_default()" => ".unwrap_or(Vec::new())"
//@ closure 0 types="&'a Vec<HeaderValue>" ret="y: Vec<Cow<'a, str>>"
requires hv@.len() > 0,
ensures y@.map_values(|c: Cow<'a, str>| cowt(c)) =~= nodes(Some(hv@[0].inner@)),
//@ closure 1 types="&'a str" ret="y: Cow<'a, str>"
ensures cowt(y) == node(v@),
//@ closure 2 types="&'a Vec<HeaderValue>" ret="y: Cow<'a, str>"
requires hv@.len() > 0,
ensures cowt(y) == hv@[0].inner@,
//@ closure 3 types="&'a Vec<HeaderValue>" ret="y: Cow<'a, str>"
requires p@.len() > 0,
ensures cowt(y) == p@[0].inner@,
//@ closure 4 types="&'a Vec<HeaderValue>" ret="y: Cow<'a, str>"
requires h@.len() > 0,
ensures cowt(y) == h@[0].inner@,
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::from_headers
//@ ret r
ensures match first_value(headers, "forwarded"@) {
    None => r is Ok && (r->Ok_0 is None <==> x_fields(headers) == no_fields()) && (r->Ok_0 matches Some(f) ==> f.fields() == x_fields(headers)),
    Some(t) => match fwd(t, no_fields()) { Some(f) => r is Ok && r->Ok_0 is Some && r->Ok_0->0.fields() == f, None => r is Err },
},
//@ rewrite "&'a impl AsRef<Headers>" => "&'a Headers"
//@ end
impl<'a> Forwarded<'a> {
//@ fn src/proxies/forwarded.rs <Forwarded<'a> as TryFrom<&'a str>>::try_from
//@ bare
//@ ret r
ensures
    r matches Ok(f) ==> fwd(value@, no_fields()) == Some(f.fields()),
    r is Err ==> fwd(value@, no_fields()) is None,
//@ rewrite "Self::Error" => "ParseError"
//@ end
}

// --- writing
pub open spec fn section(key: Seq<char>, v: Option<Seq<char>>) -> Seq<char> {
    match v { Some(t) => key + fmt_value(t) + seq![';'], None => seq![] }
}
pub open spec fn for_texts(fs: Seq<Seq<char>>) -> Seq<Seq<char>> { fs.map_values(|f: Seq<char>| "for="@ + fmt_value(f)) }
pub open spec fn for_section(fs: Seq<Seq<char>>) -> Seq<char> { if fs.len() == 0 { seq![] } else { joined(for_texts(fs)) + seq![';'] } }
pub open spec fn sections(f: F) -> Seq<char> {
    section("by="@, f.by) + for_section(f.fors) + section("host="@, f.host) + section("proto="@, f.proto)
}
pub open spec fn written(f: F) -> Seq<char> { if sections(f).len() > 0 { sections(f).drop_last() } else { seq![] } }
pub open spec fn ascii_fields(f: F) -> bool {
    &&& f.by matches Some(t) ==> ascii_chars(t)
    &&& f.host matches Some(t) ==> ascii_chars(t)
    &&& f.proto matches Some(t) ==> ascii_chars(t)
    &&& forall|i: int| 0 <= i < f.fors.len() ==> ascii_chars(#[trigger] f.fors[i])
}
pub proof fn lemma_esc_ascii(s: Seq<char>)
    requires ascii_chars(s),
    ensures ascii_chars(esc(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        let u = suf(s, 1);
        assert((s[0] as u32) < 0x80);
        assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i] as u32) < 0x80 by { assert(u[i] == s[i + 1]); }
        lemma_esc_ascii(u);
    }
}
pub proof fn lemma_fmt_ascii(s: Seq<char>)
    requires ascii_chars(s),
    ensures ascii_chars(fmt_value(s)),
{ lemma_esc_ascii(s); }
pub proof fn lemma_joined_ascii(xs: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < xs.len() ==> ascii_chars(#[trigger] xs[i]),
    ensures ascii_chars(joined(xs)),
    decreases xs.len(),
{
    reveal_strlit(", ");
    if xs.len() > 0 {
        assert(ascii_chars(xs[xs.len() - 1]));
        if xs.len() == 1 { assert(joined(xs) == xs[0]); }
        else { lemma_joined_ascii(xs.drop_last()); }
    }
}
pub proof fn lemma_sections_ascii(f: F)
    requires ascii_fields(f),
    ensures ascii_chars(sections(f)),
{
    reveal_strlit("by="); reveal_strlit("for="); reveal_strlit("host="); reveal_strlit("proto=");
    if let Some(t) = f.by { lemma_fmt_ascii(t); }
    if let Some(t) = f.host { lemma_fmt_ascii(t); }
    if let Some(t) = f.proto { lemma_fmt_ascii(t); }
    let ts = for_texts(f.fors);
    assert forall|i: int| 0 <= i < ts.len() implies ascii_chars(#[trigger] ts[i]) by { assert(ascii_chars(f.fors[i])); lemma_fmt_ascii(f.fors[i]); }
    lemma_joined_ascii(ts);
    assert(ascii_chars(section("by="@, f.by)));
    assert(ascii_chars(for_section(f.fors)));
    assert(ascii_chars(section("host="@, f.host)));
    assert(ascii_chars(section("proto="@, f.proto)));
}
impl<'a> Forwarded<'a> {
//@ fn src/proxies/forwarded.rs <Forwarded<'a> as Header>::header_value
//@ bare
//@ fmt
//@ ret r
requires ascii_fields(self.fields()),
ensures r.inner@ == written(self.fields()),
//@ rewrite ".join(\", \")" => ""
//@ rewrite "&self\n                .forwarded_for" => "&join_comma(Ghost(for_texts(self.fields().fors)), self\n                .forwarded_for"
//@ rewrite ".collect::<Vec<_>>()" => ".collect::<Vec<_>>())"
//@ rewrite "output.pop()" => "string_pop(&mut output)"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ closure 0 types="&Cow<'a, str>" ret="y: String"
ensures y@ == "for="@ + fmt_value(cowt(*f)),
//@ at start
broadcast use axiom_cow_any;
proof {
    broadcast use axiom_utf8_ascii;
    reveal_strlit("by="); reveal_strlit("for="); reveal_strlit("host="); reveal_strlit("proto="); reveal_strlit(";");
    lemma_sections_ascii(self.fields());
    assert(";"@ =~= seq![';']);
}
//@ at before-call push_str#0
proof { assert(output@ =~= section("by="@, self.fields().by)); }
//@ at before-call is_empty#0
proof {
    assert(output@ =~= section("by="@, self.fields().by) + joined(for_texts(self.fields().fors)));
}
//@ at before-call pop#0
proof {
    let f = self.fields();
    let t = sections(f);
    assert(output@ =~= t);
    if t.len() > 0 { assert forall|i: int| 0 <= i < t.drop_last().len() implies (#[trigger] t.drop_last()[i] as u32) < 0x80 by { assert(t.drop_last()[i] == t[i]); } }
    axiom_utf8_ascii(written(f));
}
//@ end
}

// --- what is written reads back
pub open spec fn printable_fields(f: F) -> bool {
    &&& f.by matches Some(t) ==> printable(t)
    &&& f.host matches Some(t) ==> printable(t)
    &&& f.proto matches Some(t) ==> printable(t)
    &&& forall|i: int| 0 <= i < f.fors.len() ==> printable(#[trigger] f.fors[i])
}
pub open spec fn cut(s: Seq<char>) -> Seq<char> { if s.len() > 0 { s.drop_last() } else { s } }
// the rest of a header after a section: nothing, or a ';' and more
pub open spec fn more(t: Seq<char>, rest: Seq<char>) -> bool { (t.len() == 0 && rest.len() == 0) || (t.len() > 0 && t[0] == ';' && suf(t, 1) == rest) }
pub proof fn lemma_separators()
    ensures !tchar_spec('='), !tchar_spec(','), !tchar_spec(';'),
{
    let s = seq!['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~'];
    assert(!s.contains('=')); assert(!s.contains(',')); assert(!s.contains(';'));
}
pub open spec fn with_field(f: F, k: Seq<char>, v: Seq<char>) -> F {
    if k == "by"@ { F { by: Some(v), ..f } } else if k == "host"@ { F { host: Some(v), ..f } } else { F { proto: Some(v), ..f } }
}
pub open spec fn is_key(k: Seq<char>) -> bool { k == "by"@ || k == "host"@ || k == "proto"@ }
pub open spec fn has_field(f: F, k: Seq<char>) -> bool { if k == "by"@ { f.by is Some } else if k == "host"@ { f.host is Some } else { f.proto is Some } }
pub proof fn lemma_keys(k: Seq<char>)
    requires is_key(k),
    ensures k.len() >= 2, k[0] != 'f', lower_char(k[0]) != 'f', forall|i: int| 0 <= i < k.len() ==> tchar_spec(#[trigger] k[i]),
        "host"@ != "by"@, "proto"@ != "by"@, "proto"@ != "host"@,
{
    reveal_strlit("by"); reveal_strlit("host"); reveal_strlit("proto");
    assert("by"@[0] != "host"@[0]); assert("by"@[0] != "proto"@[0]); assert("host"@[0] != "proto"@[0]);
}
pub proof fn lemma_pair_reads(k: Seq<char>, v: Seq<char>, t: Seq<char>, rest: Seq<char>, f: F)
    requires is_key(k), printable(v), more(t, rest), !has_field(f, k),
    ensures fwd(k + seq!['='] + fmt_value(v) + t, f) == fwd(rest, with_field(f, k, v)),
{
    lemma_keys(k); lemma_separators(); lemma_for();
    let s = k + seq!['='] + fmt_value(v) + t;
    assert forall|j: int| 0 <= j < k.len() implies !(not_tchar())(#[trigger] s[j]) by { assert(s[j] == k[j]); }
    assert(s[k.len() as int] == '=');
    lemma_first_is(s, not_tchar(), k.len() as int);
    assert(s.subrange(0, k.len() as int) =~= k);
    let r = suf(s, k.len() as int);
    assert(r[0] == '=');
    assert(suf(r, 1) =~= fmt_value(v) + t);
    lemma_value_roundtrip(v, t);
    if t.len() == 0 { assert(t =~= rest); }
    assert(pair(s, f) == Some((with_field(f, k, v), rest)));
    lemma_pair_len(s, f);
    assert(!begins(s, "for="@)) by {
        reveal_strlit("for=");
        if s.len() >= 4 {
            assert(lower(s.subrange(0, 4))[0] == lower_char(k[0]));
            assert(lower("for="@)[0] == 'f');
        }
    }
}
pub proof fn lemma_section_reads(k: Seq<char>, keq: Seq<char>, v: Option<Seq<char>>, rest: Seq<char>, f: F)
    requires is_key(k), keq == k + seq!['='], v matches Some(t) ==> printable(t), !has_field(f, k),
    ensures fwd(cut(section(keq, v) + rest), f) == fwd(cut(rest), match v { Some(t) => with_field(f, k, t), None => f }),
{
    let all = section(keq, v) + rest;
    match v {
        None => { assert(all =~= rest); },
        Some(x) => {
            let t = if rest.len() > 0 { seq![';'] + cut(rest) } else { seq![] };
            if rest.len() > 0 { assert(suf(t, 1) =~= cut(rest)); }
            assert(cut(all) =~= k + seq!['='] + fmt_value(x) + t);
            lemma_pair_reads(k, x, t, cut(rest), f);
        },
    }
}
pub proof fn lemma_joined_front(xs: Seq<Seq<char>>)
    requires xs.len() > 0,
    ensures joined(xs) == (if xs.len() == 1 { xs[0] } else { xs[0] + ", "@ + joined(xs.drop_first()) }),
    decreases xs.len(),
{
    if xs.len() > 1 {
        let p = xs.drop_last();
        lemma_joined_front(p);
        let d = xs.drop_first();
        assert(d.drop_last() =~= p.drop_first());
        assert(d.last() == xs.last());
        if xs.len() == 2 { assert(joined(d) == d[0]); assert(joined(p) == p[0]); }
        else { assert(xs[0] + ", "@ + joined(p.drop_first()) + ", "@ + xs.last() =~= xs[0] + ", "@ + (joined(p.drop_first()) + ", "@ + xs.last())); }
    }
}
pub proof fn lemma_for_reads(fs: Seq<Seq<char>>, t: Seq<char>, rest: Seq<char>, acc: Seq<Seq<char>>)
    requires fs.len() > 0, forall|i: int| 0 <= i < fs.len() ==> printable(#[trigger] fs[i]), more(t, rest),
    ensures for_list(joined(for_texts(fs)) + t, acc) == Some((acc + fs, rest)), begins(joined(for_texts(fs)) + t, "for="@),
    decreases fs.len(),
{
    lemma_for(); lemma_separators();
    reveal_strlit("for="); reveal_strlit(", ");
    let xs = for_texts(fs);
    let s = joined(xs) + t;
    lemma_joined_front(xs);
    let tl = fs.drop_first();
    assert(for_texts(tl) =~= xs.drop_first());
    let u = if fs.len() == 1 { t } else { ", "@ + joined(for_texts(tl)) + t };
    let v = fs[0];
    assert(printable(fs[0]));
    assert(s =~= "for="@ + fmt_value(v) + u);
    assert(s.subrange(0, 4) =~= "for="@);
    assert(suf(s, 4) =~= fmt_value(v) + u);
    lemma_value_roundtrip(v, u);
    if fs.len() == 1 {
        assert(acc.push(v) =~= acc + fs);
        if t.len() == 0 { assert(t =~= rest); }
    } else {
        assert(u[0] == ',');
        let w = joined(for_texts(tl)) + t;
        assert(suf(u, 1) =~= seq![' '] + w);
        assert forall|i: int| 0 <= i < tl.len() implies printable(#[trigger] tl[i]) by { assert(tl[i] == fs[i + 1]); }
        lemma_for_reads(tl, t, rest, acc.push(v));
        lemma_joined_front(for_texts(tl));
        assert(w[0] == 'f') by { assert(for_texts(tl)[0][0] == 'f'); }
        broadcast use axiom_white;
        assert((seq![' '] + w).drop_first() =~= w);
        assert(trimmed_start(w, is_white()) == w);
        assert(trimmed_start(seq![' '] + w, is_white()) == w);
        assert(acc.push(v) + tl =~= acc + fs);
    }
}
pub proof fn lemma_for_section_reads(fs: Seq<Seq<char>>, rest: Seq<char>, f: F)
    requires forall|i: int| 0 <= i < fs.len() ==> printable(#[trigger] fs[i]), f.fors.len() == 0,
    ensures fwd(cut(for_section(fs) + rest), f) == fwd(cut(rest), F { fors: fs, ..f }),
{
    let all = for_section(fs) + rest;
    if fs.len() == 0 { assert(all =~= rest); assert(fs =~= f.fors); }
    else {
        let t = if rest.len() > 0 { seq![';'] + cut(rest) } else { seq![] };
        if rest.len() > 0 { assert(suf(t, 1) =~= cut(rest)); }
        assert(cut(all) =~= joined(for_texts(fs)) + t);
        lemma_for_reads(fs, t, cut(rest), f.fors);
        assert(f.fors + fs =~= fs);
        lemma_for_len(cut(all), f.fors);
    }
}
pub proof fn lemma_written_reads_back(f: F)
    requires printable_fields(f),
    ensures fwd(written(f), no_fields()) == Some(f),
{
    reveal_strlit("by="); reveal_strlit("by"); reveal_strlit("host="); reveal_strlit("host"); reveal_strlit("proto="); reveal_strlit("proto");
    lemma_keys("by"@);
    assert("by="@ =~= "by"@ + seq!['=']); assert("host="@ =~= "host"@ + seq!['=']); assert("proto="@ =~= "proto"@ + seq!['=']);
    let a = section("by="@, f.by); let b = for_section(f.fors); let c = section("host="@, f.host); let d = section("proto="@, f.proto);
    assert(sections(f) =~= a + (b + (c + d)));
    let f0 = no_fields();
    let f1 = F { by: f.by, ..f0 };
    let f2 = F { fors: f.fors, ..f1 };
    let f3 = F { host: f.host, ..f2 };
    lemma_section_reads("by"@, "by="@, f.by, b + (c + d), f0);
    lemma_for_section_reads(f.fors, c + d, f1);
    lemma_section_reads("host"@, "host="@, f.host, d, f2);
    let e: Seq<char> = seq![];
    assert(d + e =~= d);
    lemma_section_reads("proto"@, "proto="@, f.proto, e, f3);
}
}
fn main() {}
