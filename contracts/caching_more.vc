//@ # P11: Clear-Site-Data, Age, Content-Length.
//@ include hdr.inc
//@ include nums.inc
//@ include duration.inc
//@ item src/cache/clear_site_data/directive.rs enum ClearDirective
pub open spec fn clear_text(d: ClearDirective) -> Seq<char> {
    match d {
        ClearDirective::Cache => "\"cache\""@, ClearDirective::Cookies => "\"cookies\""@,
        ClearDirective::Storage => "\"storage\""@, ClearDirective::ExecutionContexts => "\"executionContexts\""@,
    }
}
pub open spec fn clear(s: Seq<char>) -> Option<ClearDirective> {
    if s == "\"cache\""@ { Some(ClearDirective::Cache) } else if s == "\"cookies\""@ { Some(ClearDirective::Cookies) }
    else if s == "\"storage\""@ { Some(ClearDirective::Storage) } else if s == "\"executionContexts\""@ { Some(ClearDirective::ExecutionContexts) } else { None }
}
pub proof fn lemma_clear()
    ensures
        forall|d: ClearDirective| #[trigger] clear(clear_text(d)) == Some(d),
        forall|d: ClearDirective| tight(#[trigger] clear_text(d)) && ascii_chars(clear_text(d)) && clear_text(d) != "\"*\""@ && first(clear_text(d), is_char(',')) == clear_text(d).len(),
        tight("\"*\""@), ascii_chars("\"*\""@), ascii_chars(", \"*\""@), first("\"*\""@, is_char(',')) == "\"*\""@.len(), ", \"*\""@ == ", "@ + "\"*\""@,
{
    broadcast use axiom_white;
    reveal_strlit("\"cache\""); reveal_strlit("\"cookies\""); reveal_strlit("\"storage\""); reveal_strlit("\"executionContexts\""); reveal_strlit("\"*\""); reveal_strlit(", \"*\""); reveal_strlit(", ");
    assert("\"cookies\""@[1] != "\"storage\""@[1]);
    assert(", \"*\""@ =~= ", "@ + "\"*\""@);
    lemma_first_is("\"*\""@, is_char(','), 3);
    assert forall|d: ClearDirective| tight(#[trigger] clear_text(d)) && first(clear_text(d), is_char(',')) == clear_text(d).len() by { lemma_first_is(clear_text(d), is_char(','), clear_text(d).len() as int); }
}
impl Show for ClearDirective { open spec fn shown(&self) -> Seq<char> { clear_text(*self) } }
impl ClearDirective {
//@ fn src/cache/clear_site_data/directive.rs ClearDirective::as_str
//@ bare
//@ ret r
ensures r@ == clear_text(*self),
//@ end
//@ fn src/cache/clear_site_data/directive.rs <ClearDirective as Display>::fmt
//@ bare
//@ ret r
ensures r is Ok, final(f).text() == old(f).text() + self.shown(),
//@ fmt
//@ rewrite "std::fmt::" => "fmt::"
//@ end
//@ fn src/cache/clear_site_data/directive.rs <ClearDirective as FromStr>::from_str
//@ bare
//@ ret r
ensures match clear(s@) { Some(d) => r == Ok::<ClearDirective, Error>(d), None => r is Err && (r->Err_0).status == StatusCode::BadRequest },
//@ rewrite "Result<Self, Self::Err>" => "Result<Self, Error>"
//@ at start
broadcast use axiom_str_ext;
proof { lemma_clear(); }
//@ end
}
pub type Clears = (bool, Seq<ClearDirective>);
pub open spec fn clear_step() -> spec_fn(Option<Clears>, Seq<char>) -> Option<Clears> {
    |acc: Option<Clears>, s: Seq<char>| match acc {
        None => None,
        Some(x) => { let t = trim(s);
            if t.len() == 0 { acc } else if t == "\"*\""@ { Some((true, x.1)) }
            else { match clear(t) { None => None, Some(e) => Some((x.0, x.1.push(e))) } } },
    }
}
pub open spec fn clear_line() -> spec_fn(Option<Clears>, Seq<char>) -> Option<Clears> {
    |acc: Option<Clears>, v: Seq<char>| { let ps = splits(trim(v), ','); fold(ps, ps.len() as int, acc, clear_step()) }
}
pub proof fn lemma_clear_strict() ensures strict(clear_step()), strict(clear_line())
{
    assert forall|v: Seq<char>| #[trigger] clear_line()(None, v) is None by { let ps = splits(trim(v), ','); lemma_fold_none(ps, 0, ps.len() as int, None, clear_step()); }
}
pub open spec fn clear_list(vs: Seq<Seq<char>>) -> Option<Clears> { fold(vs, vs.len() as int, Some((false, seq![])), clear_line()) }
pub open spec fn clear_texts(es: Seq<ClearDirective>) -> Seq<Seq<char>> { es.map_values(|e: ClearDirective| clear_text(e)) }
pub open spec fn all_texts(x: Clears) -> Seq<Seq<char>> { if x.0 { clear_texts(x.1).push("\"*\""@) } else { clear_texts(x.1) } }
pub proof fn lemma_clears_fold(es: Seq<ClearDirective>, n: int)
    requires 0 <= n <= es.len(),
    ensures fold(clear_texts(es), n, Some((false, seq![])), clear_step()) == Some((false, es.subrange(0, n))),
    decreases n,
{
    if n > 0 {
        lemma_clears_fold(es, n - 1);
        lemma_clear();
        let t = clear_texts(es)[n - 1];
        assert(t == clear_text(es[n - 1]));
        assert(tight(t) && clear(t) == Some(es[n - 1]));
        lemma_trim_id(t);
        assert(es.subrange(0, n) =~= es.subrange(0, n - 1).push(es[n - 1]));
    } else { assert(es.subrange(0, 0) =~= seq![]); }
}
// what is written reads back
pub proof fn lemma_clear_site_data_reads(x: Clears)
    ensures clear_list(seq![joined(all_texts(x))]) == Some(x),
{
    let ts = all_texts(x);
    let f = clear_step();
    let z: Option<Clears> = Some((false, seq![]));
    let cs = clear_texts(x.1);
    lemma_clear();
    assert forall|i: int| 0 <= i < ts.len() implies first(#[trigger] ts[i], is_char(',')) == ts[i].len() && tight(ts[i]) by { if i < cs.len() { assert(ts[i] == clear_text(x.1[i])); } }
    assert forall|i: int, a: Option<Clears>| 0 <= i < ts.len() implies #[trigger] f(a, " "@ + ts[i]) == f(a, ts[i]) by { lemma_trim_id(ts[i]); lemma_trim_space(ts[i]); }
    assert forall|a: Option<Clears>| #[trigger] f(a, seq![]) == a by { assert(trim(seq![]) =~= seq![]); }
    lemma_list_reads(ts, z, f);
    lemma_joined_tight(ts);
    lemma_clears_fold(x.1, x.1.len() as int);
    assert(x.1.subrange(0, x.1.len() as int) =~= x.1);
    lemma_fold_prefix(ts, cs, cs.len() as int, z, f);
    if x.0 { lemma_trim_id("\"*\""@); assert(f(Some((false, x.1)), ts[cs.len() as int]) == Some((true, x.1))); }
    let t = joined(ts);
    assert(fold(seq![t], 1, z, clear_line()) == clear_line()(fold(seq![t], 0, z, clear_line()), t));
}
//@ item src/cache/clear_site_data/mod.rs struct ClearSiteData
//@ fn src/cache/clear_site_data/mod.rs ClearSiteData::new
//@ ret r
ensures !r.wildcard, r.entries@.len() == 0,
//@ end
//@ fn src/cache/clear_site_data/mod.rs ClearSiteData::wildcard
//@ ret r
ensures r == self.wildcard,
//@ end
//@ fn src/cache/clear_site_data/mod.rs ClearSiteData::set_wildcard
ensures final(self).wildcard == wildcard, final(self).entries == old(self).entries,
//@ end
//@ fn src/cache/clear_site_data/mod.rs ClearSiteData::push
ensures final(self).wildcard == old(self).wildcard, final(self).entries@ == old(self).entries@.push(directive),
//@ rewrite "directive: impl Into<ClearDirective>" => "directive: ClearDirective"
//@ rewrite "directive.into()" => "directive"
//@ end
//@ fn src/cache/clear_site_data/mod.rs ClearSiteData::from_headers
//@ ret r
ensures
    match header_values(headers, "clear-site-data"@) {
        None => r == Ok::<Option<ClearSiteData>, Error>(None),
        Some(vs) => match clear_list(texts(vs)) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(x) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).wildcard == x.0 && (r->Ok_0->0).entries@ == x.1,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(CLEAR_SITE_DATA)" => "header_get(headers, \"clear-site-data\")"
//@ rewrite "value.as_str().trim().split(',')" => "str_split(str_trim(value.as_str()), ',')"
//@ rewrite "part.trim()" => "str_trim(part)"
//@ rewrite "part.is_empty()" => "str_is_empty(part)"
//@ rewrite "part == r#\"\"*\"\"#" => "str_eq(part, r#\"\"*\"\"#)"
//@ attr #[verifier::loop_isolation(false)]
//@ at start
let ghost z: Option<Clears> = Some((false, seq![]));
proof { lemma_clear_strict(); lemma_clear(); }
//@ loop 0 it=it
invariant
    it.seq().len() == header_values@.len(),
    forall|i: int| 0 <= i < header_values@.len() ==> *(#[trigger] it.seq()[i]) == header_values@[i],
    fold(texts(header_values@), it.index@, z, clear_line()) == Some((wildcard, entries@)),
//@ at loop 0 start
let ghost n = it.index@;
let ghost vs = texts(header_values@);
let ghost a = fold(vs, n, z, clear_line());
let ghost ps = splits(trim(value.inner@), ',');
proof { assert(vs[n] == value.inner@); assert(fold(vs, n + 1, z, clear_line()) == fold(ps, ps.len() as int, a, clear_step())); }
//@ loop 1 it=it2
invariant
    it2.seq().len() == ps.len(),
    forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it2.seq()[i])@ == ps[i],
    fold(ps, it2.index@, a, clear_step()) == Some((wildcard, entries@)),
//@ at loop 1 start
let ghost m = it2.index@;
proof {
    assert(part@ == ps[m]);
    assert(fold(ps, m + 1, a, clear_step()) == clear_step()(fold(ps, m, a, clear_step()), ps[m]));
    if fold(ps, m + 1, a, clear_step()) is None { lemma_fold_none(ps, m + 1, ps.len() as int, a, clear_step()); lemma_fold_none(vs, n + 1, vs.len() as int, z, clear_line()); }
}
//@ end
impl ClearSiteData {
//@ fn src/cache/clear_site_data/mod.rs <ClearSiteData as Header>::header_value
//@ bare
//@ ret r
ensures r.inner@ == joined(all_texts((self.wildcard, self.entries@))),
//@ fmt
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "output.len()" => "str_len(&output)"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
let ghost es = clear_texts(self.entries@);
proof { reveal_strlit(", "); lemma_clear(); let n = self.entries.len(); assert(es.subrange(0, 0) =~= seq![]); }
//@ loop 0 it=it
invariant
    it.seq().len() == self.entries@.len(),
    forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] it.seq()[i]) == self.entries@[i],
    vx_n0 == it.index@,
    output@ == joined(es.subrange(0, it.index@)),
    it.index@ > 0 ==> output@.len() > 0,
    ascii_chars(output@),
//@ at loop 0 start
let ghost k = it.index@;
proof {
    assert(es[k] == clear_text(self.entries@[k]));
    lemma_joined_push(es.subrange(0, k), es[k]);
    assert(es.subrange(0, k + 1) =~= es.subrange(0, k).push(es[k]));
}
//@ at loop 0 end
proof { assert(output@ =~= joined(es.subrange(0, k + 1))); assert(tight(clear_text(self.entries@[k]))); }
//@ at loop 0 after
proof { assert(es.subrange(0, es.len() as int) =~= es); lemma_joined_push(es, "\"*\""@); if output@.len() > 0 { lemma_off_mono(output@, 0, output@.len() as int); } }
let ghost j = output@;
//@ at tail
proof { assert(output@ =~= joined(all_texts((self.wildcard, self.entries@)))); }
//@ end
}
//@ item src/cache/age.rs struct Age
//@ fn src/cache/age.rs Age::new
//@ ret r
ensures r.dur == dur,
//@ end
//@ fn src/cache/age.rs Age::from_secs
//@ ret r
ensures r.dur == (Duration { s: secs, n: 0 }),
//@ end
//@ fn src/cache/age.rs Age::duration
//@ ret r
ensures r == self.dur,
//@ end
//@ fn src/cache/age.rs Age::from_headers
//@ ret r
ensures
    match header_values(headers, "age"@) {
        None => r == Ok::<Option<Age>, Error>(None),
        Some(vs) => match num(vs.last().inner@, u64::MAX as int) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(n) => r == Ok::<Option<Age>, Error>(Some(Age { dur: Duration { s: n as u64, n: 0 } })),
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(AGE)" => "header_get(headers, \"age\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ rewrite "header.as_str().parse::<u64>()" => "parse_u64(header.as_str())"
//@ end
impl Age {
//@ fn src/cache/age.rs <Age as Header>::header_value
//@ bare
//@ ret r
ensures r.inner@ == dec_text(self.dur.s as int), num(r.inner@, u64::MAX as int) == Some(self.dur.s as int),
//@ rewrite "self.dur.as_secs().to_string()" => "vx_to_string(&self.dur.as_secs())"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
proof { lemma_dec_text(self.dur.s as int); }
//@ end
}
//@ item src/content/content_length.rs struct ContentLength
//@ fn src/content/content_length.rs ContentLength::new
//@ ret r
ensures r.length == length,
//@ end
//@ fn src/content/content_length.rs ContentLength::len
//@ ret r
ensures r == self.length,
//@ end
//@ fn src/content/content_length.rs ContentLength::set_len
ensures final(self).length == len,
//@ end
//@ fn src/content/content_length.rs ContentLength::from_headers
//@ ret r
ensures
    match header_values(headers, "content-length"@) {
        None => r == Ok::<Option<ContentLength>, Error>(None),
        Some(vs) => match num(trim(vs.last().inner@), u64::MAX as int) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(n) => r == Ok::<Option<ContentLength>, Error>(Some(ContentLength { length: n as u64 })),
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(CONTENT_LENGTH)" => "header_get(headers, \"content-length\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ rewrite "value.as_str().trim().parse::<u64>()" => "parse_u64(str_trim(value.as_str()))"
//@ end
impl ContentLength {
//@ fn src/content/content_length.rs <ContentLength as Header>::header_value
//@ bare
//@ ret r
ensures r.inner@ == dec_text(self.length as int), num(trim(r.inner@), u64::MAX as int) == Some(self.length as int),
//@ fmt
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii, axiom_white;
proof {
    let t = dec_text(self.length as int);
    lemma_dec_text(self.length as int);
    assert(is_digit(t[0]) && is_digit(t[t.len() - 1]));
    lemma_trim_id(t);
}
//@ at tail
proof { assert(output@ =~= dec_text(self.length as int)); }
//@ end
}
}
fn main() {}
