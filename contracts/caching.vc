//@ # P11: Cache-Control, Age, Content-Length, Clear-Site-Data.
//@ include hdr.inc
//@ include nums.inc
//@ include ulower.inc
//@ include duration.inc
//@ item src/cache/cache_control/cache_directive.rs enum CacheDirective
// a directive as its registered name and its argument (RFC 7234, RFC 5861, RFC 8246)
pub open spec fn dv(d: CacheDirective) -> (Seq<char>, Option<Duration>) {
    match d {
        CacheDirective::Immutable => ("immutable"@, None),
        CacheDirective::MaxAge(x) => ("max-age"@, Some(x)),
        CacheDirective::MaxStale(x) => ("max-stale"@, x),
        CacheDirective::MinFresh(x) => ("min-fresh"@, Some(x)),
        CacheDirective::MustRevalidate => ("must-revalidate"@, None),
        CacheDirective::NoCache => ("no-cache"@, None),
        CacheDirective::NoStore => ("no-store"@, None),
        CacheDirective::NoTransform => ("no-transform"@, None),
        CacheDirective::OnlyIfCached => ("only-if-cached"@, None),
        CacheDirective::Private => ("private"@, None),
        CacheDirective::ProxyRevalidate => ("proxy-revalidate"@, None),
        CacheDirective::Public => ("public"@, None),
        CacheDirective::SMaxAge(x) => ("s-maxage"@, Some(x)),
        CacheDirective::StaleIfError(x) => ("stale-if-error"@, Some(x)),
        CacheDirective::StaleWhileRevalidate(x) => ("stale-while-revalidate"@, Some(x)),
    }
}
pub open spec fn plain_name(n: Seq<char>) -> bool {
    n == "immutable"@ || n == "must-revalidate"@ || n == "no-cache"@ || n == "no-store"@ || n == "no-transform"@ || n == "only-if-cached"@
        || n == "private"@ || n == "proxy-revalidate"@ || n == "public"@
}
pub open spec fn timed_name(n: Seq<char>) -> bool {
    n == "max-age"@ || n == "min-fresh"@ || n == "s-maxage"@ || n == "stale-if-error"@ || n == "stale-while-revalidate"@
}
pub open spec fn in_requests(n: Seq<char>) -> bool {
    n == "max-age"@ || n == "max-stale"@ || n == "min-fresh"@ || n == "no-cache"@ || n == "no-store"@ || n == "no-transform"@ || n == "only-if-cached"@ || n == "stale-if-error"@
}
pub open spec fn in_responses(n: Seq<char>) -> bool {
    n == "must-revalidate"@ || n == "no-cache"@ || n == "no-store"@ || n == "no-transform"@ || n == "public"@ || n == "private"@ || n == "proxy-revalidate"@
        || n == "max-age"@ || n == "s-maxage"@ || n == "stale-if-error"@ || n == "stale-while-revalidate"@ || n == "immutable"@
}
pub proof fn lemma_names()
    ensures
        forall|n: Seq<char>| !(plain_name(n) && timed_name(n)) && !((plain_name(n) || timed_name(n)) && n == "max-stale"@),
        forall|n: Seq<char>| plain_name(n) || timed_name(n) || n == "max-stale"@ ==> word(n),
{
    reveal_strlit("immutable"); reveal_strlit("must-revalidate"); reveal_strlit("no-cache"); reveal_strlit("no-store"); reveal_strlit("no-transform"); reveal_strlit("only-if-cached"); reveal_strlit("private"); reveal_strlit("proxy-revalidate"); reveal_strlit("public"); reveal_strlit("max-age"); reveal_strlit("min-fresh"); reveal_strlit("s-maxage"); reveal_strlit("stale-if-error"); reveal_strlit("stale-while-revalidate"); reveal_strlit("max-stale");
    assert("immutable"@[0] != "min-fresh"@[0]);
    assert("immutable"@[0] != "max-stale"@[0]);
    assert("no-cache"@[3] != "no-store"@[3]);
    assert("no-cache"@[0] != "s-maxage"@[0]);
    assert("no-store"@[0] != "s-maxage"@[0]);
    assert("only-if-cached"@[0] != "stale-if-error"@[0]);
    assert("private"@[0] != "max-age"@[0]);
    assert("min-fresh"@[1] != "max-stale"@[1]);
    assert(word("immutable"@));
    assert(word("must-revalidate"@));
    assert(word("no-cache"@));
    assert(word("no-store"@));
    assert(word("no-transform"@));
    assert(word("only-if-cached"@));
    assert(word("private"@));
    assert(word("proxy-revalidate"@));
    assert(word("public"@));
    assert(word("max-age"@));
    assert(word("min-fresh"@));
    assert(word("s-maxage"@));
    assert(word("stale-if-error"@));
    assert(word("stale-while-revalidate"@));
    assert(word("max-stale"@));
}
pub proof fn lemma_members()
    ensures
        !in_requests("immutable"@), in_responses("immutable"@), !in_requests("must-revalidate"@), in_responses("must-revalidate"@), in_requests("no-cache"@), in_responses("no-cache"@), in_requests("no-store"@), in_responses("no-store"@), in_requests("no-transform"@), in_responses("no-transform"@), in_requests("only-if-cached"@), !in_responses("only-if-cached"@), !in_requests("private"@), in_responses("private"@), !in_requests("proxy-revalidate"@), in_responses("proxy-revalidate"@), !in_requests("public"@), in_responses("public"@), in_requests("max-age"@), in_responses("max-age"@), in_requests("min-fresh"@), !in_responses("min-fresh"@), !in_requests("s-maxage"@), in_responses("s-maxage"@), in_requests("stale-if-error"@), in_responses("stale-if-error"@), !in_requests("stale-while-revalidate"@), in_responses("stale-while-revalidate"@), in_requests("max-stale"@), !in_responses("max-stale"@),
{
    reveal_strlit("immutable"); reveal_strlit("must-revalidate"); reveal_strlit("no-cache"); reveal_strlit("no-store"); reveal_strlit("no-transform"); reveal_strlit("only-if-cached"); reveal_strlit("private"); reveal_strlit("proxy-revalidate"); reveal_strlit("public"); reveal_strlit("max-age"); reveal_strlit("min-fresh"); reveal_strlit("s-maxage"); reveal_strlit("stale-if-error"); reveal_strlit("stale-while-revalidate"); reveal_strlit("max-stale");
    assert("immutable"@[0] != "min-fresh"@[0]);
    assert("immutable"@[0] != "max-stale"@[0]);
    assert("no-cache"@[3] != "no-store"@[3]);
    assert("no-cache"@[0] != "s-maxage"@[0]);
    assert("no-store"@[0] != "s-maxage"@[0]);
    assert("only-if-cached"@[0] != "stale-if-error"@[0]);
    assert("private"@[0] != "max-age"@[0]);
    assert("min-fresh"@[1] != "max-stale"@[1]);
    assert("immutable"@.len() == 9 && "must-revalidate"@.len() == 15 && "no-cache"@.len() == 8 && "no-store"@.len() == 8 && "no-transform"@.len() == 12 && "only-if-cached"@.len() == 14 && "private"@.len() == 7 && "proxy-revalidate"@.len() == 16 && "public"@.len() == 6 && "max-age"@.len() == 7 && "min-fresh"@.len() == 9 && "s-maxage"@.len() == 8 && "stale-if-error"@.len() == 14 && "stale-while-revalidate"@.len() == 22 && "max-stale"@.len() == 9);
}
pub open spec fn wordc(c: char) -> bool { ('a' <= c && c <= 'z') || c == '-' }
pub open spec fn word(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> wordc(#[trigger] s[i]) }
pub enum Read { Bad, Skip, Is(Seq<char>, Option<Duration>) }
pub open spec fn arg(ps: Seq<Seq<char>>) -> Option<Duration> {
    if ps.len() < 2 { None } else { match num(ps[1], u64::MAX as int) { Some(x) => Some(Duration { s: x as u64, n: 0 }), None => None } }
}
pub open spec fn directive(s: Seq<char>) -> Read {
    let t = trim(s);
    let ps = splits(ulower(t), '=');
    let n = ps[0];
    if t.len() == 0 { Read::Skip }
    else if plain_name(n) { Read::Is(n, None) }
    else if timed_name(n) || (n == "max-stale"@ && ps.len() > 1) { match arg(ps) { Some(d) => Read::Is(n, Some(d)), None => Read::Bad } }
    else if n == "max-stale"@ { Read::Is(n, None) }
    else { Read::Skip }
}
//@ fn src/cache/cache_control/cache_directive.rs CacheDirective::valid_in_req
//@ ret r
ensures r == in_requests(dv(*self).0),
//@ at start
proof { lemma_members(); }
//@ end
//@ fn src/cache/cache_control/cache_directive.rs CacheDirective::valid_in_res
//@ ret r
ensures r == in_responses(dv(*self).0),
//@ at start
proof { lemma_members(); }
//@ end
//@ fn src/cache/cache_control/cache_directive.rs CacheDirective::from_str / let get_dur
//@ bare
//@ sig "fn get_dur<'a>(parts: &mut Parts<'a>) -> (r: CrateResult<Duration>)"
ensures
    r is Err ==> (r->Err_0).status == StatusCode::BadRequest,
    old(parts).rem().len() == 0 ==> r is Err,
    old(parts).rem().len() > 0 ==> match num(old(parts).rem()[0], u64::MAX as int) { Some(n) => r == Ok::<Duration, Error>(Duration { s: n as u64, n: 0 }), None => r is Err },
//@ rewrite "dur.parse::<u64>()" => "parse_u64(dur)"
//@ end
//@ fn src/cache/cache_control/cache_directive.rs CacheDirective::from_str
//@ ret r
ensures
    match directive(s@) {
        Read::Bad => r is Err && (r->Err_0).status == StatusCode::BadRequest,
        Read::Skip => r == Ok::<Option<CacheDirective>, Error>(None),
        Read::Is(n, d) => r is Ok && r->Ok_0 is Some && dv(r->Ok_0->0) == (n, d),
    },
//@ lift get_dur "&mut parts"
//@ rewrite "s.trim()" => "str_trim(s)"
//@ rewrite "s.is_empty()" => "str_is_empty(s)"
//@ rewrite "s.to_lowercase()" => "str_to_lowercase(s)"
//@ rewrite "s.split('=')" => "Parts::new(s.as_str(), '=')"
//@ rewrite "secs.parse::<u64>()" => "parse_u64(secs)"
//@ at start
broadcast use axiom_str_ext;
proof { lemma_names(); lemma_splits(ulower(trim(s@)), '='); }
//@ end
pub open spec fn dir_text(x: (Seq<char>, Option<Duration>)) -> Seq<char> {
    match x.1 { None => x.0, Some(d) => x.0 + seq!['='] + dec_text(d.s as int) }
}
pub proof fn lemma_dir_text()
    ensures
        "max-age="@ == "max-age"@ + seq!['='], "max-stale="@ == "max-stale"@ + seq!['='], "min-fresh="@ == "min-fresh"@ + seq!['='], "s-maxage="@ == "s-maxage"@ + seq!['='],
        "stale-if-error="@ == "stale-if-error"@ + seq!['='], "stale-while-revalidate="@ == "stale-while-revalidate"@ + seq!['='],
        forall|x: Seq<char>| #![trigger ascii_chars(x)] word(x) ==> ascii_chars(x),
{
    reveal_strlit("max-age="); reveal_strlit("max-stale="); reveal_strlit("min-fresh="); reveal_strlit("s-maxage="); reveal_strlit("stale-if-error="); reveal_strlit("stale-while-revalidate=");
    reveal_strlit("max-age"); reveal_strlit("max-stale"); reveal_strlit("min-fresh"); reveal_strlit("s-maxage"); reveal_strlit("stale-if-error"); reveal_strlit("stale-while-revalidate");
    assert("max-age="@ =~= "max-age"@ + seq!['=']);
    assert("max-stale="@ =~= "max-stale"@ + seq!['=']);
    assert("min-fresh="@ =~= "min-fresh"@ + seq!['=']);
    assert("s-maxage="@ =~= "s-maxage"@ + seq!['=']);
    assert("stale-if-error="@ =~= "stale-if-error"@ + seq!['=']);
    assert("stale-while-revalidate="@ =~= "stale-while-revalidate"@ + seq!['=']);
    assert forall|x: Seq<char>| #![trigger ascii_chars(x)] word(x) implies ascii_chars(x) by { assert forall|i: int| 0 <= i < x.len() implies (x[i] as u32) < 0x80 by { assert(wordc(x[i])); } }
}
pub open spec fn valid_dir(x: (Seq<char>, Option<Duration>)) -> bool {
    if plain_name(x.0) { x.1 is None } else if timed_name(x.0) { x.1 is Some } else { x.0 == "max-stale"@ }
}
// the argument a directive is written with: whole seconds
pub open spec fn whole(x: (Seq<char>, Option<Duration>)) -> (Seq<char>, Option<Duration>) {
    (x.0, match x.1 { None => None, Some(d) => Some(Duration { s: d.s, n: 0 }) })
}
pub proof fn lemma_dv(d: CacheDirective) ensures valid_dir(dv(d)) { lemma_names(); }
pub proof fn lemma_dir_ascii(x: (Seq<char>, Option<Duration>))
    requires valid_dir(x),
    ensures ascii_chars(dir_text(x)), tight(dir_text(x)), first(dir_text(x), is_char(',')) == dir_text(x).len(), lower(dir_text(x)) == dir_text(x),
{
    broadcast use axiom_white;
    lemma_names(); lemma_dir_text();
    let n = x.0;
    let t = dir_text(x);
    assert(word(n));
    if x.1 is Some {
        let m = dec_text((x.1->0).s as int);
        lemma_dec_text((x.1->0).s as int);
        assert forall|i: int| 0 <= i < t.len() implies wordc(#[trigger] t[i]) || t[i] == '=' || is_digit(t[i]) by {
            if i < n.len() { assert(t[i] == n[i]); } else if i > n.len() { assert(t[i] == m[i - n.len() - 1]); }
        }
        assert(t.last() == m.last());
        assert(is_digit(m[m.len() - 1]));
    } else { assert(wordc(t.last())); }
    assert(t[0] == n[0]);
    assert(wordc(n[0]));
    assert forall|i: int| 0 <= i < t.len() implies (t[i] as u32) < 0x80 && lower_char(t[i]) == t[i] && !is_char(',')(#[trigger] t[i]) by { assert(wordc(t[i]) || t[i] == '=' || is_digit(t[i])); }
    lemma_first_is(t, is_char(','), t.len() as int);
    assert(lower(t) =~= t);
}
pub proof fn lemma_directive_reads(x: (Seq<char>, Option<Duration>))
    requires valid_dir(x),
    ensures directive(dir_text(x)) == Read::Is(x.0, whole(x).1), directive(" "@ + dir_text(x)) == Read::Is(x.0, whole(x).1),
{
    broadcast use axiom_ulower;
    lemma_names();
    lemma_dir_ascii(x);
    let t = dir_text(x);
    let n = x.0;
    lemma_trim_id(t);
    lemma_trim_space(t);
    assert(word(n));
    assert forall|i: int| 0 <= i < n.len() implies !is_char('=')(#[trigger] n[i]) by { assert(wordc(n[i])); }
    lemma_first_is(n, is_char('='), n.len() as int);
    assert(splits(n, '=') =~= seq![n]);
    if x.1 is Some {
        let m = dec_text((x.1->0).s as int);
        lemma_dec_text((x.1->0).s as int);
        assert forall|i: int| 0 <= i < m.len() implies !is_char('=')(#[trigger] m[i]) by { assert(is_digit(m[i])); }
        lemma_first_is(m, is_char('='), m.len() as int);
        assert(splits(m, '=') =~= seq![m]);
        lemma_splits_append(n, m, '=');
        assert(splits(t, '=') =~= seq![n, m]);
        assert(num(m, u64::MAX as int) == Some((x.1->0).s as int));
        assert(arg(splits(t, '=')) == whole(x).1);
    }
}
impl HeaderValue {
//@ fn src/cache/cache_control/cache_directive.rs <HeaderValue as From<CacheDirective>>::from
//@ bare
//@ rename from_directive
//@ ret r
ensures r.inner@ == dir_text(dv(directive)),
//@ fmt
//@ closure 0 types="String" ret="y: HeaderValue"
requires ascii_chars(s@),
ensures y.inner@ == s@,
//@ at start
broadcast use axiom_utf8_ascii;
proof {
    lemma_names(); lemma_dir_text(); lemma_dv(directive); lemma_dir_ascii(dv(directive));
}
//@ end
}
pub type Dirs = Seq<(Seq<char>, Option<Duration>)>;
pub open spec fn dirs(es: Seq<CacheDirective>) -> Dirs { es.map_values(|e: CacheDirective| dv(e)) }
pub open spec fn dir_step() -> spec_fn(Option<Dirs>, Seq<char>) -> Option<Dirs> {
    |acc: Option<Dirs>, s: Seq<char>| match acc {
        None => None,
        Some(x) => match directive(s) { Read::Bad => None, Read::Skip => acc, Read::Is(n, d) => Some(x.push((n, d))) },
    }
}
pub open spec fn dir_line() -> spec_fn(Option<Dirs>, Seq<char>) -> Option<Dirs> {
    |acc: Option<Dirs>, v: Seq<char>| { let ps = splits(trim(v), ','); fold(ps, ps.len() as int, acc, dir_step()) }
}
pub proof fn lemma_dir_strict() ensures strict(dir_step()), strict(dir_line())
{
    assert forall|v: Seq<char>| #[trigger] dir_line()(None, v) is None by { let ps = splits(trim(v), ','); lemma_fold_none(ps, 0, ps.len() as int, None, dir_step()); }
}
pub open spec fn dir_list(vs: Seq<Seq<char>>) -> Option<Dirs> { fold(vs, vs.len() as int, Some(seq![]), dir_line()) }
pub open spec fn dir_texts(ds: Dirs) -> Seq<Seq<char>> { ds.map_values(|d: (Seq<char>, Option<Duration>)| dir_text(d)) }
pub open spec fn wholes(ds: Dirs) -> Dirs { ds.map_values(|d: (Seq<char>, Option<Duration>)| whole(d)) }
pub proof fn lemma_dirs_fold(ds: Dirs, n: int)
    requires forall|i: int| 0 <= i < ds.len() ==> valid_dir(#[trigger] ds[i]), 0 <= n <= ds.len(),
    ensures fold(dir_texts(ds), n, Some(seq![]), dir_step()) == Some(wholes(ds).subrange(0, n)),
    decreases n,
{
    if n > 0 {
        lemma_dirs_fold(ds, n - 1);
        lemma_directive_reads(ds[n - 1]);
        assert(wholes(ds).subrange(0, n) =~= wholes(ds).subrange(0, n - 1).push(whole(ds[n - 1])));
        assert(dir_texts(ds)[n - 1] == dir_text(ds[n - 1]));
    } else { assert(wholes(ds).subrange(0, 0) =~= seq![]); }
}
// what is written reads back, to the second
pub proof fn lemma_cache_control_reads(ds: Dirs)
    requires forall|i: int| 0 <= i < ds.len() ==> valid_dir(#[trigger] ds[i]),
    ensures dir_list(seq![joined(dir_texts(ds))]) == Some(wholes(ds)),
{
    let ts = dir_texts(ds);
    let f = dir_step();
    let z: Option<Dirs> = Some(seq![]);
    assert forall|i: int| 0 <= i < ts.len() implies first(#[trigger] ts[i], is_char(',')) == ts[i].len() && tight(ts[i]) by { lemma_dir_ascii(ds[i]); }
    assert forall|i: int, a: Option<Dirs>| 0 <= i < ts.len() implies #[trigger] f(a, " "@ + ts[i]) == f(a, ts[i]) by { lemma_directive_reads(ds[i]); }
    assert forall|a: Option<Dirs>| #[trigger] f(a, seq![]) == a by { assert(trim(seq![]) =~= seq![]); }
    lemma_list_reads(ts, z, f);
    lemma_joined_tight(ts);
    lemma_dirs_fold(ds, ds.len() as int);
    assert(wholes(ds).subrange(0, ds.len() as int) =~= wholes(ds));
    let t = joined(ts);
    assert(fold(seq![t], 1, z, dir_line()) == dir_line()(fold(seq![t], 0, z, dir_line()), t));
}
//@ item src/cache/cache_control/cache_control.rs struct CacheControl
//@ fn src/cache/cache_control/cache_control.rs CacheControl::new
//@ ret r
ensures r.entries@.len() == 0,
//@ end
//@ fn src/cache/cache_control/cache_control.rs CacheControl::push
ensures final(self).entries@ == old(self).entries@.push(directive),
//@ end
//@ fn src/cache/cache_control/cache_control.rs CacheControl::from_headers
//@ ret r
ensures
    match header_values(headers, "cache-control"@) {
        None => r == Ok::<Option<CacheControl>, Error>(None),
        Some(vs) => match dir_list(texts(vs)) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(x) => r is Ok && r->Ok_0 is Some && dirs((r->Ok_0->0).entries@) == x,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(CACHE_CONTROL)" => "header_get(headers, \"cache-control\")"
//@ rewrite "value.as_str().trim().split(',')" => "str_split(str_trim(value.as_str()), ',')"
//@ attr #[verifier::loop_isolation(false)]
//@ at start
let ghost z: Option<Dirs> = Some(seq![]);
proof { lemma_dir_strict(); }
//@ loop 0 it=it
invariant
    it.seq().len() == headers@.len(),
    forall|i: int| 0 <= i < headers@.len() ==> *(#[trigger] it.seq()[i]) == headers@[i],
    fold(texts(headers@), it.index@, z, dir_line()) == Some(dirs(entries@)),
//@ at loop 0 before
proof { assert(dirs(entries@) =~= seq![]); }
//@ at loop 0 start
let ghost n = it.index@;
let ghost vs = texts(headers@);
let ghost a = fold(vs, n, z, dir_line());
let ghost ps = splits(trim(value.inner@), ',');
proof { assert(vs[n] == value.inner@); assert(fold(vs, n + 1, z, dir_line()) == fold(ps, ps.len() as int, a, dir_step())); }
//@ loop 1 it=it2
invariant
    it2.seq().len() == ps.len(),
    forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it2.seq()[i])@ == ps[i],
    fold(ps, it2.index@, a, dir_step()) == Some(dirs(entries@)),
//@ at loop 1 start
let ghost m = it2.index@;
let ghost before = entries@;
proof {
    assert(part@ == ps[m]);
    assert(fold(ps, m + 1, a, dir_step()) == dir_step()(fold(ps, m, a, dir_step()), ps[m]));
    if fold(ps, m + 1, a, dir_step()) is None { lemma_fold_none(ps, m + 1, ps.len() as int, a, dir_step()); lemma_fold_none(vs, n + 1, vs.len() as int, z, dir_line()); }
}
//@ at loop 1 end
proof { if entries@.len() > before.len() { assert(dirs(entries@) =~= dirs(before).push(dv(entries@.last()))); } }
//@ end
// TRUSTED: the derived Clone of CacheDirective
#[verifier::external_body]
pub fn dir_clone(d: &CacheDirective) -> (r: CacheDirective) ensures r == *d { unimplemented!() }
impl CacheControl {
//@ fn src/cache/cache_control/cache_control.rs <CacheControl as Header>::header_value
//@ bare
//@ ret r
ensures r.inner@ == joined(dir_texts(dirs(self.entries@))),
//@ fmt
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "directive.clone().into()" => "HeaderValue::from_directive(dir_clone(directive))"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
let ghost es = dir_texts(dirs(self.entries@));
proof { reveal_strlit(", "); let n = self.entries.len(); assert(es.subrange(0, 0) =~= seq![]); }
//@ loop 0 it=it
invariant
    it.seq().len() == self.entries@.len(),
    forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] it.seq()[i]) == self.entries@[i],
    vx_n0 == it.index@,
    output@ == joined(es.subrange(0, it.index@)),
    ascii_chars(output@),
//@ at loop 0 start
let ghost k = it.index@;
proof {
    lemma_dv(self.entries@[k]); lemma_dir_ascii(dv(self.entries@[k]));
    assert(es[k] == dir_text(dv(self.entries@[k])));
    lemma_joined_push(es.subrange(0, k), es[k]);
    assert(es.subrange(0, k + 1) =~= es.subrange(0, k).push(es[k]));
}
//@ at loop 0 end
proof { assert(output@ =~= joined(es.subrange(0, k + 1))); }
//@ at loop 0 after
proof { assert(es.subrange(0, es.len() as int) =~= es); }
//@ end
}
}
fn main() {}
