//@ # P16: security headers.
//@ include hdr.inc
//@ include nums.inc
//@ include duration.inc
//@ include hmap.inc
//@ include urls.inc
// str::split_once
#[verifier::external_body]
pub fn str_split_once<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { Some((a, b)) => halves(s@, c) == seq![a@, b@], None => halves(s@, c).len() == 1 },
{ s.split_once(c) }
//@ item src/security/strict_transport_security.rs struct StrictTransportSecurity
pub type Sv = (Option<Duration>, bool, bool);
pub open spec fn sv(s: StrictTransportSecurity) -> Sv { (Some(s.max_age), s.include_subdomains, s.preload) }
// RFC 6797: directives in any case, unknown ones ignored, max-age in seconds
pub open spec fn sts_step() -> spec_fn(Option<Sv>, Seq<char>) -> Option<Sv> {
    |acc: Option<Sv>, p: Seq<char>| match acc {
        None => None,
        Some(x) => {
            let t = trim(p);
            let h = halves(t, '=');
            if lower(t) == "includesubdomains"@ { Some((x.0, true, x.2)) }
            else if lower(t) == "preload"@ { Some((x.0, x.1, true)) }
            else if h.len() == 2 && lower(h[0]) == "max-age"@ { match num(h[1], u64::MAX as int) { Some(n) => Some((Some(Duration { s: n as u64, n: 0 }), x.1, x.2)), None => None } }
            else { acc }
        },
    }
}
pub open spec fn sts(v: Seq<char>) -> Option<Sv> {
    let ps = splits(v, ';');
    match fold(ps, ps.len() as int, Some((None, false, false)), sts_step()) { Some(x) => if x.0 is Some { Some(x) } else { None }, None => None }
}
pub proof fn lemma_words()
    ensures lower("includesubdomains"@) == "includesubdomains"@, lower("preload"@) == "preload"@, lower("max-age"@) == "max-age"@,
        "includesubdomains"@ != "preload"@, "includesubdomains"@.len() == 17, "preload"@.len() == 7, "max-age"@.len() == 7, "preload"@ != "max-age"@,
{
    reveal_strlit("includesubdomains"); reveal_strlit("preload"); reveal_strlit("max-age");
    assert(lower("includesubdomains"@) =~= "includesubdomains"@);
    assert(lower("preload"@) =~= "preload"@);
    assert(lower("max-age"@) =~= "max-age"@);
    assert("preload"@[0] != "max-age"@[0]);
}
//@ fn src/security/strict_transport_security.rs StrictTransportSecurity::new
//@ ret r
ensures sv(r) == (Some(duration), false, false),
//@ end
impl StrictTransportSecurity {
//@ fn src/security/strict_transport_security.rs <StrictTransportSecurity as Default>::default
//@ bare
//@ ret r
ensures sv(r) == (Some(Duration { s: 31536000, n: 0 }), false, true),
//@ end
//@ fn src/security/strict_transport_security.rs <StrictTransportSecurity as From<Duration>>::from
//@ bare
//@ rename from_duration
//@ ret r
ensures sv(r) == (Some(duration), false, false),
//@ end
}
impl Duration {
//@ fn src/security/strict_transport_security.rs <Duration as From<StrictTransportSecurity>>::from
//@ bare
//@ rename from_sts
//@ ret r
ensures Some(r) == sv(stc).0,
//@ end
}
//@ fn src/security/strict_transport_security.rs StrictTransportSecurity::include_subdomains
//@ ret r
ensures r == sv(*self).1,
//@ end
//@ fn src/security/strict_transport_security.rs StrictTransportSecurity::set_include_subdomains
ensures sv(*final(self)) == (sv(*old(self)).0, include_subdomains, sv(*old(self)).2),
//@ end
//@ fn src/security/strict_transport_security.rs StrictTransportSecurity::preload
//@ ret r
ensures r == sv(*self).2,
//@ end
//@ fn src/security/strict_transport_security.rs StrictTransportSecurity::set_preload
ensures sv(*final(self)) == (sv(*old(self)).0, sv(*old(self)).1, preload),
//@ end
//@ fn src/security/strict_transport_security.rs StrictTransportSecurity::max_age
//@ ret r
ensures Some(r) == sv(*self).0,
//@ end
//@ fn src/security/strict_transport_security.rs StrictTransportSecurity::set_max_age
ensures sv(*final(self)) == (Some(duration), sv(*old(self)).1, sv(*old(self)).2),
//@ end
//@ fn src/security/strict_transport_security.rs StrictTransportSecurity::from_headers
//@ ret r
ensures
    match header_values(headers, "strict-transport-security"@) {
        None => r == Ok::<Option<StrictTransportSecurity>, Error>(None),
        Some(vs) => match sts(vs.last().inner@) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(x) => r is Ok && r->Ok_0 is Some && sv(r->Ok_0->0) == x,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(STRICT_TRANSPORT_SECURITY)" => "header_get(headers, \"strict-transport-security\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ rewrite "value.as_str().split(';')" => "str_split(value.as_str(), ';')"
//@ rewrite "s.trim()" => "str_trim(s)"
//@ rewrite "s.split_once('=')" => "str_split_once(s, '=')"
//@ rewrite "value.parse::<u64>()" => "parse_u64(value)"
//@ attr #[verifier::loop_isolation(false)]
//@ at start
let ghost z: Option<Sv> = Some((None, false, false));
proof { lemma_words(); assert(strict(sts_step())); }
//@ loop 0 it=it
invariant
    it.seq().len() == splits(value.inner@, ';').len(),
    forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == splits(value.inner@, ';')[i],
    fold(splits(value.inner@, ';'), it.index@, z, sts_step()) == Some((max_age, include_subdomains, preload)),
//@ at loop 0 start
let ghost k = it.index@;
let ghost ps = splits(value.inner@, ';');
proof {
    assert(s@ == ps[k]);
    assert(fold(ps, k + 1, z, sts_step()) == sts_step()(fold(ps, k, z, sts_step()), ps[k]));
    if fold(ps, k + 1, z, sts_step()) is None { lemma_fold_none(ps, k + 1, ps.len() as int, z, sts_step()); }
}
//@ end
pub open spec fn sts_text(x: Sv) -> Seq<char> {
    "max-age="@ + dec_text((x.0->0).s as int) + (if x.1 { ";includeSubdomains"@ } else { seq![] }) + (if x.2 { ";preload"@ } else { seq![] })
}
impl StrictTransportSecurity {
//@ fn src/security/strict_transport_security.rs <StrictTransportSecurity as Header>::header_value
//@ bare
//@ ret r
ensures r.inner@ == sts_text(sv(*self)),
//@ fmt
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
proof {
    reveal_strlit("max-age="); reveal_strlit(";includeSubdomains"); reveal_strlit(";preload");
    let n = self.max_age.s as int;
    lemma_dec_text(n);
    let t = dec_text(n);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 by { assert(is_digit(t[i])); }
}
//@ at tail
proof { assert(output@ =~= sts_text(sv(*self))); }
//@ end
}
pub proof fn lemma_sts_reads(x: Sv)
    requires x.0 is Some,
    ensures sts(sts_text(x)) == Some((Some(Duration { s: (x.0->0).s, n: 0 }), x.1, x.2)),
{
    broadcast use axiom_white;
    reveal_strlit("max-age="); reveal_strlit(";includeSubdomains"); reveal_strlit(";preload"); reveal_strlit("includesubdomains"); reveal_strlit("preload"); reveal_strlit("max-age");
    lemma_words();
    let n = (x.0->0).s as int;
    let m = dec_text(n);
    lemma_dec_text(n);
    let a = "max-age="@ + m;
    let b = ";includeSubdomains"@.drop_first();
    let c = ";preload"@.drop_first();
    assert(c =~= "preload"@);
    assert(lower(b) =~= "includesubdomains"@);
    assert forall|i: int| 0 <= i < a.len() implies !is_char(';')(#[trigger] a[i]) by { if i >= 8 { assert(is_digit(m[i - 8])); } }
    lemma_first_is(a, is_char(';'), a.len() as int);
    lemma_first_is(b, is_char(';'), b.len() as int);
    lemma_first_is(c, is_char(';'), c.len() as int);
    assert(splits(a, ';') =~= seq![a]);
    assert(splits(b, ';') =~= seq![b]);
    assert(splits(c, ';') =~= seq![c]);
    lemma_splits_append(a, b, ';');
    lemma_splits_append(a, c, ';');
    lemma_splits_append(a + seq![';'] + b, c, ';');
    let e: Seq<char> = seq![];
    assert(a + e + e =~= a);
    assert(a + ";includeSubdomains"@ + e =~= a + seq![';'] + b);
    assert(a + e + ";preload"@ =~= a + seq![';'] + c);
    assert(a + ";includeSubdomains"@ + ";preload"@ =~= a + seq![';'] + b + seq![';'] + c);
    assert(is_digit(m.last()));
    assert(a.last() == m.last());
    lemma_trim_id(a); lemma_trim_id(b); lemma_trim_id(c);
    assert(a[0] == 'm' && a[7] == '=');
    assert(lower(a).len() == a.len());
    if lower(a) == "preload"@ { assert(lower(a)[0] == 'm'); }
    if lower(a) == "includesubdomains"@ { assert(lower(a)[0] == 'm'); }
    lemma_first_is(a, is_char('='), 7);
    assert(a.subrange(0, 7) =~= "max-age"@);
    assert(a.subrange(8, a.len() as int) =~= m);
    assert(num(m, u64::MAX as int) == Some(n));
    reveal_with_fuel(fold, 4);
    let z: Option<Sv> = Some((None, false, false));
    let d = Some(Duration { s: (x.0->0).s, n: 0 });
    assert(sts_step()(z, a) == Some((d, false, false)));
    let ps = splits(sts_text(x), ';');
    assert(ps =~= seq![a] + (if x.1 { seq![b] } else { seq![] }) + (if x.2 { seq![c] } else { seq![] }));
}
// Timing-Allow-Origin
//@ item src/security/timing_allow_origin.rs struct TimingAllowOrigin
pub type Tv = (Seq<Url>, bool);
pub open spec fn tv(t: TimingAllowOrigin) -> Tv { (t.origins@, t.wildcard) }
pub open spec fn no_origin(t: Seq<char>) -> bool { t.len() == 0 || t == "null"@ || t == "\"null\""@ }
pub open spec fn tao_step() -> spec_fn(Option<Tv>, Seq<char>) -> Option<Tv> {
    |acc: Option<Tv>, p: Seq<char>| match acc {
        None => None,
        Some(x) => {
            let t = trim(p);
            if t == "*"@ { Some((x.0, true)) } else if no_origin(t) { acc }
            else { match url_of(t) { Some(u) => Some((x.0.push(u), x.1)), None => None } }
        },
    }
}
pub open spec fn tao(vs: Seq<Seq<char>>) -> Option<Tv> { fold(vs, vs.len() as int, Some((seq![], false)), line(tao_step(), ',')) }
pub proof fn lemma_tao_strict() ensures strict(tao_step()), strict(line(tao_step(), ','))
{
    assert forall|v: Seq<char>| #[trigger] line(tao_step(), ',')(None, v) is None by { lemma_fold_none(splits(v, ','), 0, splits(v, ',').len() as int, None, tao_step()); }
}
//@ fn src/security/timing_allow_origin.rs TimingAllowOrigin::new
//@ ret r
ensures tv(r) == (Seq::<Url>::empty(), false),
//@ end
//@ fn src/security/timing_allow_origin.rs TimingAllowOrigin::push
ensures tv(*final(self)) == (tv(*old(self)).0.push(origin), tv(*old(self)).1),
//@ rewrite "origin: impl Into<Url>" => "origin: Url"
//@ rewrite "origin.into()" => "origin"
//@ end
//@ fn src/security/timing_allow_origin.rs TimingAllowOrigin::wildcard
//@ ret r
ensures r == tv(*self).1,
//@ end
//@ fn src/security/timing_allow_origin.rs TimingAllowOrigin::set_wildcard
ensures tv(*final(self)) == (tv(*old(self)).0, wildcard),
//@ end
//@ fn src/security/timing_allow_origin.rs TimingAllowOrigin::from_headers
//@ ret r
ensures
    match header_values(headers, "timing-allow-origin"@) {
        None => r == Ok::<Option<TimingAllowOrigin>, Error>(None),
        Some(vs) => match tao(texts(vs)) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(x) => r is Ok && r->Ok_0 is Some && tv(r->Ok_0->0) == x,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(TIMING_ALLOW_ORIGIN)" => "header_get(headers, \"timing-allow-origin\")"
//@ rewrite "header.as_str().split(',')" => "str_split(header.as_str(), ',')"
//@ rewrite "origin.trim()" => "str_trim(origin)"
//@ attr #[verifier::loop_isolation(false)]
//@ at start
broadcast use axiom_str_ext;
let ghost z: Option<Tv> = Some((seq![], false));
let ghost f = line(tao_step(), ',');
proof {
    lemma_tao_strict();
    reveal_strlit(""); reveal_strlit("*"); reveal_strlit("null"); reveal_strlit("\"null\"");
    assert forall|t: Seq<char>| #![trigger t.len()] t.len() == 0 implies t == ""@ by { assert(t =~= ""@); }
    assert("*"@.len() == 1 && "null"@.len() == 4 && "\"null\""@.len() == 6);
}
//@ loop 0 it=it
invariant
    it.seq().len() == headers@.len(),
    forall|i: int| 0 <= i < headers@.len() ==> *(#[trigger] it.seq()[i]) == headers@[i],
    fold(texts(headers@), it.index@, z, f) == Some((origins@, wildcard)),
//@ at loop 0 before
proof { assert(origins@ =~= seq![]); }
//@ at loop 0 start
let ghost n = it.index@;
let ghost vs = texts(headers@);
let ghost a = fold(vs, n, z, f);
let ghost ps = splits(header.inner@, ',');
proof { assert(vs[n] == header.inner@); assert(fold(vs, n + 1, z, f) == f(a, vs[n])); assert(f(a, vs[n]) == fold(ps, ps.len() as int, a, tao_step())); }
//@ loop 1 it=it2
invariant
    it2.seq().len() == ps.len(),
    forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it2.seq()[i])@ == ps[i],
    fold(ps, it2.index@, a, tao_step()) == Some((origins@, wildcard)),
//@ at loop 1 start
let ghost m = it2.index@;
proof {
    assert(origin@ == ps[m]);
    assert(fold(ps, m + 1, a, tao_step()) == tao_step()(fold(ps, m, a, tao_step()), ps[m]));
    if fold(ps, m + 1, a, tao_step()) is None { lemma_fold_none(ps, m + 1, ps.len() as int, a, tao_step()); lemma_fold_none(vs, n + 1, vs.len() as int, z, f); }
}
//@ end
pub open spec fn tao_texts(x: Tv) -> Seq<Seq<char>> { let us = x.0.map_values(|u: Url| url_text(u)); if x.1 { us.push("*"@) } else { us } }
impl TimingAllowOrigin {
//@ fn src/security/timing_allow_origin.rs <TimingAllowOrigin as Header>::header_value
//@ bare
//@ ret r
ensures r.inner@ == joined(tao_texts(tv(*self))),
//@ fmt
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "output.into()" => "output.into_bytes()"
//@ rewrite "output.len()" => "str_len(output.as_str())"
//@ at start
broadcast use {axiom_utf8_ascii, axiom_url_text};
let ghost es = self.origins@.map_values(|u: Url| url_text(u));
proof { reveal_strlit(", "); reveal_strlit("*"); reveal_strlit(", *"); let n = self.origins.len(); assert(es.subrange(0, 0) =~= seq![]); }
//@ loop 0 it=it
invariant
    it.seq().len() == self.origins@.len(),
    forall|i: int| 0 <= i < self.origins@.len() ==> *(#[trigger] it.seq()[i]) == self.origins@[i],
    vx_n0 == it.index@,
    output@ == joined(es.subrange(0, it.index@)),
    it.index@ > 0 ==> output@.len() > 0,
    ascii_chars(output@),
//@ at loop 0 start
let ghost k = it.index@;
proof {
    let t = url_text(self.origins@[k]);
    assert(es[k] == t);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 by { assert(urlc(t[i])); }
    lemma_joined_push(es.subrange(0, k), es[k]);
    assert(es.subrange(0, k + 1) =~= es.subrange(0, k).push(es[k]));
}
//@ at loop 0 end
proof { assert(output@ =~= joined(es.subrange(0, k + 1))); }
//@ at loop 0 after
proof {
    assert(es.subrange(0, es.len() as int) =~= es);
    lemma_joined_push(es, "*"@);
    lemma_off_mono(output@, 0, output@.len() as int);
    assert(", *"@ =~= ", "@ + "*"@);
}
//@ at tail
proof { assert(output@ =~= joined(tao_texts(tv(*self)))); }
//@ end
}
pub open spec fn plain_url(u: Url) -> bool { first(url_text(u), is_char(',')) == url_text(u).len() && url_text(u) != "*"@ && !no_origin(url_text(u)) }
pub proof fn lemma_tao_fold(x: Tv, n: int)
    requires forall|i: int| 0 <= i < x.0.len() ==> plain_url(#[trigger] x.0[i]), 0 <= n <= x.0.len(),
    ensures fold(tao_texts(x), n, Some((seq![], false)), tao_step()) == Some((x.0.subrange(0, n), false)),
    decreases n,
{
    broadcast use {axiom_url_text, axiom_white};
    if n > 0 {
        lemma_tao_fold(x, n - 1);
        let t = url_text(x.0[n - 1]);
        assert(plain_url(x.0[n - 1]));
        assert(urlc(t[0]) && urlc(t[t.len() - 1]));
        lemma_trim_id(t);
        assert(x.0.subrange(0, n) =~= x.0.subrange(0, n - 1).push(x.0[n - 1]));
        assert(tao_texts(x)[n - 1] == t);
    } else { assert(x.0.subrange(0, 0) =~= seq![]); }
}
pub proof fn lemma_tao_reads(x: Tv)
    requires forall|i: int| 0 <= i < x.0.len() ==> plain_url(#[trigger] x.0[i]),
    ensures tao(seq![joined(tao_texts(x))]) == Some(x),
{
    broadcast use {axiom_url_text, axiom_white};
    reveal_strlit("*");
    let ts = tao_texts(x);
    let f = tao_step();
    let z: Option<Tv> = Some((seq![], false));
    lemma_first_is("*"@, is_char(','), 1);
    assert forall|i: int| 0 <= i < ts.len() implies first(#[trigger] ts[i], is_char(',')) == ts[i].len() && tight(ts[i]) by {
        if i < x.0.len() { assert(plain_url(x.0[i])); let t = url_text(x.0[i]); assert(ts[i] == t); assert(urlc(t[0]) && urlc(t[t.len() - 1])); } else { assert(ts[i] == "*"@); }
    }
    assert forall|i: int, a: Option<Tv>| 0 <= i < ts.len() implies #[trigger] f(a, " "@ + ts[i]) == f(a, ts[i]) by { lemma_trim_space(ts[i]); lemma_trim_id(ts[i]); }
    assert forall|a: Option<Tv>| #[trigger] f(a, seq![]) == a by { assert(trim(seq![]) =~= seq![]); assert("*"@.len() == 1); }
    lemma_list_reads(ts, z, f);
    lemma_tao_fold(x, x.0.len() as int);
    assert(x.0.subrange(0, x.0.len() as int) =~= x.0);
    if x.1 {
        lemma_trim_id("*"@);
        assert(fold(ts, ts.len() as int, z, f) == f(fold(ts, ts.len() - 1, z, f), ts[ts.len() - 1]));
    }
    let t = joined(ts);
    assert(fold(seq![t], 1, z, line(f, ',')) == line(f, ',')(fold(seq![t], 0, z, line(f, ',')), t));
}
// The fixed protections.
pub proof fn lemma_fixed()
    ensures
        ascii_chars("X-DNS-Prefetch-Control"@) && ascii_chars("X-Frame-Options"@) && ascii_chars("Strict-Transport-Security"@) && ascii_chars("X-Content-Type-Options"@) && ascii_chars("X-XSS-Protection"@) && ascii_chars("Referrer-Policy"@),
        ascii_chars("on"@) && ascii_chars("sameorigin"@) && ascii_chars("deny"@) && ascii_chars("max-age=5184000"@) && ascii_chars("nosniff"@) && ascii_chars("1; mode=block"@),
        lower("X-DNS-Prefetch-Control"@) == "x-dns-prefetch-control"@ && lower("X-Frame-Options"@) == "x-frame-options"@ && lower("Strict-Transport-Security"@) == "strict-transport-security"@ && lower("X-Content-Type-Options"@) == "x-content-type-options"@ && lower("X-XSS-Protection"@) == "x-xss-protection"@ && lower("Referrer-Policy"@) == "referrer-policy"@,
{
    reveal_strlit("X-DNS-Prefetch-Control"); reveal_strlit("X-Frame-Options"); reveal_strlit("Strict-Transport-Security"); reveal_strlit("X-Content-Type-Options"); reveal_strlit("X-XSS-Protection"); reveal_strlit("Referrer-Policy");
    reveal_strlit("x-dns-prefetch-control"); reveal_strlit("x-frame-options"); reveal_strlit("strict-transport-security"); reveal_strlit("x-content-type-options"); reveal_strlit("x-xss-protection"); reveal_strlit("referrer-policy");
    reveal_strlit("on"); reveal_strlit("sameorigin"); reveal_strlit("deny"); reveal_strlit("max-age=5184000"); reveal_strlit("nosniff"); reveal_strlit("1; mode=block");
    assert(lower("X-DNS-Prefetch-Control"@) =~= "x-dns-prefetch-control"@);
    assert(lower("X-Frame-Options"@) =~= "x-frame-options"@);
    assert(lower("Strict-Transport-Security"@) =~= "strict-transport-security"@);
    assert(lower("X-Content-Type-Options"@) =~= "x-content-type-options"@);
    assert(lower("X-XSS-Protection"@) =~= "x-xss-protection"@);
    assert(lower("Referrer-Policy"@) =~= "referrer-policy"@);
}
//@ fn src/security/mod.rs dns_prefetch_control
ensures htexts(final(headers)) == htexts(old(headers)).insert("x-dns-prefetch-control"@, seq!["on"@]),
//@ rewrite "mut headers: impl AsMut<Headers>" => "headers: &mut Headers"
//@ rewrite ".as_mut()" => ""
//@ at start
proof { lemma_fixed(); }
//@ end
//@ item src/security/mod.rs enum FrameOptions
//@ fn src/security/mod.rs frameguard
ensures htexts(final(headers)) == htexts(old(headers)).insert("x-frame-options"@, seq![if guard == Some(FrameOptions::Deny) { "deny"@ } else { "sameorigin"@ }]),
//@ rewrite "mut headers: impl AsMut<Headers>" => "headers: &mut Headers"
//@ rewrite ".as_mut()" => ""
//@ at start
proof { lemma_fixed(); }
//@ end
//@ fn src/security/mod.rs powered_by
ensures htexts(final(headers)) == match value { Some(v) => htexts(old(headers)).insert("x-powered-by"@, seq![v.inner@]), None => htexts(old(headers)).remove("x-powered-by"@) },
//@ rewrite "mut headers: impl AsMut<Headers>" => "headers: &mut Headers"
//@ rewrite ".as_mut()" => ""
//@ end
//@ fn src/security/mod.rs hsts
ensures htexts(final(headers)) == htexts(old(headers)).insert("strict-transport-security"@, seq!["max-age=5184000"@]),
//@ rewrite "mut headers: impl AsMut<Headers>" => "headers: &mut Headers"
//@ rewrite ".as_mut()" => ""
//@ at start
proof { lemma_fixed(); }
//@ end
//@ fn src/security/mod.rs nosniff
ensures htexts(final(headers)) == htexts(old(headers)).insert("x-content-type-options"@, seq!["nosniff"@]),
//@ rewrite "mut headers: impl AsMut<Headers>" => "headers: &mut Headers"
//@ rewrite ".as_mut()" => ""
//@ at start
proof { lemma_fixed(); }
//@ end
//@ fn src/security/mod.rs xss_filter
ensures htexts(final(headers)) == htexts(old(headers)).insert("x-xss-protection"@, seq!["1; mode=block"@]),
//@ rewrite "mut headers: impl AsMut<Headers>" => "headers: &mut Headers"
//@ rewrite ".as_mut()" => ""
//@ at start
proof { lemma_fixed(); }
//@ end
//@ item src/security/mod.rs enum ReferrerOptions
pub open spec fn policy_text(o: Option<ReferrerOptions>) -> Seq<char> {
    match o {
        None | Some(ReferrerOptions::NoReferrer) => "no-referrer"@,
        Some(ReferrerOptions::NoReferrerDowngrade) => "no-referrer-when-downgrade"@,
        Some(ReferrerOptions::SameOrigin) => "same-origin"@,
        Some(ReferrerOptions::Origin) => "origin"@,
        Some(ReferrerOptions::StrictOrigin) => "strict-origin"@,
        Some(ReferrerOptions::CrossOrigin) => "origin-when-cross-origin"@,
        Some(ReferrerOptions::StrictCrossOrigin) => "strict-origin-when-cross-origin"@,
        Some(ReferrerOptions::UnsafeUrl) => "unsafe-url"@,
    }
}
//@ fn src/security/mod.rs referrer_policy
ensures htexts(final(headers)) == htexts(old(headers)).insert("referrer-policy"@, hvals(htexts(old(headers)), "referrer-policy"@).push(policy_text(referrer))),
//@ rewrite "mut headers: impl AsMut<Headers>" => "headers: &mut Headers"
//@ rewrite ".as_mut()" => ""
//@ at start
proof {
    lemma_fixed();
    reveal_strlit("no-referrer"); reveal_strlit("no-referrer-when-downgrade"); reveal_strlit("same-origin"); reveal_strlit("origin"); reveal_strlit("strict-origin"); reveal_strlit("origin-when-cross-origin"); reveal_strlit("strict-origin-when-cross-origin"); reveal_strlit("unsafe-url");
}
//@ end
// every protection, and nothing else
pub open spec fn protected(m: Map<Seq<char>, Seq<Seq<char>>>) -> Map<Seq<char>, Seq<Seq<char>>> {
    m.insert("x-dns-prefetch-control"@, seq!["on"@]).insert("x-content-type-options"@, seq!["nosniff"@]).insert("x-frame-options"@, seq!["sameorigin"@])
        .remove("x-powered-by"@).insert("strict-transport-security"@, seq!["max-age=5184000"@]).insert("x-xss-protection"@, seq!["1; mode=block"@])
}
//@ fn src/security/mod.rs default
ensures htexts(final(headers)) =~= protected(htexts(old(headers))),
//@ rewrite "mut headers: impl AsMut<Headers>" => "headers: &mut Headers"
//@ rewrite "&mut headers" => "headers"
//@ at tail
proof { lemma_distinct(); }
//@ end
pub proof fn lemma_distinct()
    ensures
        "x-dns-prefetch-control"@.len() == 22, "x-content-type-options"@.len() == 22, "x-dns-prefetch-control"@ != "x-content-type-options"@, "x-frame-options"@.len() == 15, "x-powered-by"@.len() == 12, "strict-transport-security"@.len() == 25, "x-xss-protection"@.len() == 16,
{
    reveal_strlit("x-dns-prefetch-control"); reveal_strlit("x-content-type-options"); reveal_strlit("x-frame-options"); reveal_strlit("x-powered-by"); reveal_strlit("strict-transport-security"); reveal_strlit("x-xss-protection");
    assert("x-dns-prefetch-control"@[2] != "x-content-type-options"@[2]);
}
}
fn main() {}
