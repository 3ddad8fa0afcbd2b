//@ # P15: Server-Timing.
//@ include hdr.inc
//@ include indices.inc
//@ include quoted.inc
//@ include quoting.inc
//@ include duration.inc
//@ include unquoted.inc
pub trait TrimEnds { spec fn chars(self) -> Seq<char>; fn vx_trim_end(self) -> (r: Self) ensures r.chars() == trimmed_end(self.chars(), is_white()); fn vx_trim_start(self) -> (r: Self) ensures r.chars() == trimmed_start(self.chars(), is_white()); }
impl<'a> TrimEnds for &'a str {
    open spec fn chars(self) -> Seq<char> { self@ }
    fn vx_trim_end(self) -> (r: Self) { str_trim_end(self) }
    fn vx_trim_start(self) -> (r: Self) { str_trim_start(self) }
}
//@ include split_unquoted.inc
// TRUSTED: reading and writing decimal fractions, and seconds as fractions.
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn f64_text(x: f64) -> Seq<char>;
pub uninterp spec fn secs_of(x: f64) -> Option<Duration>;
pub uninterp spec fn millis_of(d: Duration) -> f64;
pub broadcast axiom fn axiom_f64_text(x: f64)
    ensures (#[trigger] f64_text(x)).len() > 0, forall|i: int| 0 <= i < f64_text(x).len() ==> numberc(#[trigger] f64_text(x)[i]);
pub open spec fn numberc(c: char) -> bool { ('0' <= c && c <= '9') || c == '.' || c == '-' || c == '+' || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
#[verifier::external_body]
pub fn parse_f64(s: &str) -> (r: Result<f64, ()>) ensures match f64_of(s@) { Some(x) => r == Ok::<f64, ()>(x), None => r is Err } { s.parse().map_err(|_| ()) }
#[verifier::external_body]
pub fn duration_from_f64(x: f64) -> (r: Result<Duration, ()>) ensures match secs_of(x) { Some(d) => r == Ok::<Duration, ()>(d), None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub fn as_millis_f64(d: Duration) -> (r: f64) ensures r == millis_of(d) { unimplemented!() }
impl Show for f64 { open spec fn shown(&self) -> Seq<char> { f64_text(*self) } }
// Duration division, to the nanosecond below
pub open spec fn over(d: Duration, n: int) -> Duration {
    let t = (d.s as int * 1_000_000_000 + d.n as int) / n;
    Duration { s: (t / 1_000_000_000) as u64, n: (t % 1_000_000_000) as u32 }
}
#[verifier::external_body]
pub fn duration_div(d: Duration, n: u32) -> (r: Duration) requires n > 0 ensures r == over(d, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_ends_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
// the pieces as an iterator
pub trait Front<T> { fn next(&mut self) -> (r: Option<T>); }
impl<T> Front<T> for Vec<T> {
    fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { if self.len() == 0 { None } else { let x = self.remove(0); proof { assert(self@ =~= old(self)@.drop_first()); } Some(x) } }
}
//@ item src/trace/server_timing/metric.rs struct Metric
pub open spec fn opt_text(d: Option<String>) -> Option<Seq<char>> { match d { Some(x) => Some(x@), None => None } }
// Option::as_deref
pub fn opt_as_deref<'a>(x: &'a Option<String>) -> (r: Option<&'a str>) ensures match r { Some(t) => *x is Some && t@ == ((*x)->0)@, None => *x is None } { match x { Some(s) => Some(s.as_str()), None => None } }
pub type Mv = (Seq<char>, Option<Duration>, Option<Seq<char>>);
pub open spec fn mv(m: Metric) -> Mv { (m.name@, m.dur, opt_text(m.desc)) }
// dur: milliseconds as a decimal fraction
pub open spec fn dur_of(v: Seq<char>) -> Option<Duration> {
    match f64_of(v) { Some(x) => match secs_of(x) { Some(d) => Some(over(d, 1000)), None => None }, None => None }
}
// desc: a quoted string, or text without quotes around it
pub open spec fn desc_of(v: Seq<char>) -> Option<Seq<char>> {
    match quoted(v) {
        Some(x) if x.1.len() == 0 => Some(x.0),
        _ => if v.len() > 0 && (v[0] == '"' || v.last() == '"') { None } else { Some(v) },
    }
}
pub open spec fn trims(s: Seq<char>) -> Seq<char> { trimmed_start(s, is_white()) }
pub open spec fn trime(s: Seq<char>) -> Seq<char> { trimmed_end(s, is_white()) }
pub open spec fn param() -> spec_fn(Option<Mv>, Seq<char>) -> Option<Mv> {
    |acc: Option<Mv>, p: Seq<char>| match acc {
        None => None,
        Some(m) => {
            let h = halves(trims(p), '=');
            if p.len() == 0 || h.len() < 2 { None } else {
                let n = trime(h[0]);
                let v = trims(h[1]);
                if n == "dur"@ { match dur_of(v) { Some(d) => Some((m.0, Some(d), m.2)), None => None } }
                else if n == "desc"@ { match desc_of(v) { Some(d) => Some((m.0, m.1, Some(d))), None => None } }
                else { Some(m) }
            }
        },
    }
}
pub open spec fn entry(s: Seq<char>) -> Option<Mv> {
    let ps = usplits(trim(s), ';');
    let z: Option<Mv> = Some((trime(ps[0]), None, None));
    fold(ps.drop_first(), ps.len() - 1, z, param())
}
pub open spec fn timings() -> spec_fn(Option<Seq<Mv>>, Seq<char>) -> Option<Seq<Mv>> {
    |acc: Option<Seq<Mv>>, p: Seq<char>| match acc {
        None => None,
        Some(x) => if trim(p).len() == 0 { acc } else { match entry(p) { Some(m) => Some(x.push(m)), None => None } },
    }
}
pub open spec fn timing_line() -> spec_fn(Option<Seq<Mv>>, Seq<char>) -> Option<Seq<Mv>> {
    |acc: Option<Seq<Mv>>, v: Seq<char>| { let ps = usplits(trim(v), ','); fold(ps, ps.len() as int, acc, timings()) }
}
pub proof fn lemma_timings_strict() ensures strict(timings()), strict(timing_line()), strict(param())
{
    assert forall|v: Seq<char>| #[trigger] timing_line()(None, v) is None by { let ps = usplits(trim(v), ','); lemma_fold_none(ps, 0, ps.len() as int, None, timings()); }
}
pub proof fn lemma_usplits(s: Seq<char>, c: char) ensures usplits(s, c).len() >= 1 { }
pub open spec fn mvs(v: Seq<Metric>) -> Seq<Mv> { v.map_values(|m: Metric| mv(m)) }
//@ fn src/trace/server_timing/parse.rs parse_entry
//@ ret r
ensures match entry(s@) { Some(m) => r is Ok && mv(r->Ok_0) == m, None => r is Err },
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "split_unquoted(s.trim(), ';').into_iter()" => "split_unquoted(str_trim(s), ';')"
//@ rewrite ".trim_end()" => ".vx_trim_end()"
//@ rewrite ".trim_start()" => ".vx_trim_start()"
//@ rewrite "part.is_empty()" => "str_is_empty(part)"
//@ rewrite "part.splitn(2, '=')" => "Parts::halves(part, '=')"
//@ rewrite "map_err(|_|" => "map_err(|vx_e: ()|"
//@ rewrite "value.parse()" => "parse_f64(value)"
//@ rewrite "Duration::try_from_secs_f64(millis)" => "duration_from_f64(millis)"
//@ rewrite "millis / 1000" => "duration_div(millis, 1000)"
//@ rewrite "value.into_owned()" => "cow_into_owned(value)"
//@ rewrite "value.starts_with('\"')" => "str_starts_with_char(value, '\"')"
//@ rewrite "value.ends_with('\"')" => "str_ends_with_char(value, '\"')"
//@ rewrite "value.to_string()" => "str::to_owned(value)"
//@ rewrite "name.to_string()" => "str::to_owned(name)"
//@ at start
broadcast use axiom_str_ext;
let ghost ps = usplits(trim(s@), ';');
let ghost z: Option<Mv> = Some((trime(ps[0]), None, None));
proof { lemma_timings_strict(); lemma_usplits(trim(s@), ';'); reveal_strlit(""); reveal_strlit("dur"); reveal_strlit("desc"); assert("dur"@.len() == 3 && "desc"@.len() == 4); assert forall|t: Seq<char>| #![trigger t.len()] t.len() == 0 implies t == ""@ by { assert(t =~= ""@); } }
//@ loop 0 it=it
invariant
    it.seq().len() == ps.len() - 1,
    forall|i: int| 0 <= i < ps.len() - 1 ==> (#[trigger] it.seq()[i])@ == ps.drop_first()[i],
    fold(ps.drop_first(), it.index@, z, param()) == Some((name@, dur, opt_text(desc))),
//@ at loop 0 start
let ghost k = it.index@;
proof {
    assert(part@ == ps.drop_first()[k]);
    assert(fold(ps.drop_first(), k + 1, z, param()) == param()(fold(ps.drop_first(), k, z, param()), ps.drop_first()[k]));
    assert(it.index@ < ps.len() - 1);
    if fold(ps.drop_first(), k + 1, z, param()) is None { lemma_fold_none(ps.drop_first(), k + 1, ps.len() - 1, z, param()); assert(entry(s@) is None); }
}
//@ end
//@ fn src/trace/server_timing/parse.rs parse_header
//@ ret r
ensures
    match fold(usplits(trim(s@), ','), usplits(trim(s@), ',').len() as int, Some(mvs(old(entries)@)), timings()) {
        Some(x) => r is Ok && mvs(final(entries)@) == x,
        None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
    },
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "s.trim()" => "str_trim(s)"
//@ rewrite "part.trim().is_empty()" => "str_is_empty(str_trim(part))"
//@ rewrite "e.set_status(StatusCode::BadRequest)" => "set_status_code(&mut e, StatusCode::BadRequest)"
//@ closure 0 types="Error" ret="y: Error"
ensures y.status == StatusCode::BadRequest,
//@ at start
let ghost ps = usplits(trim(s@), ',');
let ghost z: Option<Seq<Mv>> = Some(mvs(entries@));
proof { lemma_timings_strict(); }
//@ loop 0 it=it
invariant
    it.seq().len() == ps.len(),
    forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it.seq()[i])@ == ps[i],
    fold(ps, it.index@, z, timings()) == Some(mvs(entries@)),
//@ at loop 0 start
let ghost k = it.index@;
let ghost before = entries@;
proof {
    assert(part@ == ps[k]);
    assert(fold(ps, k + 1, z, timings()) == timings()(fold(ps, k, z, timings()), ps[k]));
    if fold(ps, k + 1, z, timings()) is None { lemma_fold_none(ps, k + 1, ps.len() as int, z, timings()); }
}
//@ at loop 0 end
proof { if entries@.len() > before.len() { assert(mvs(entries@) =~= mvs(before).push(mv(entries@.last()))); } }
//@ end
//@ item src/trace/server_timing/mod.rs struct ServerTiming
//@ fn src/trace/server_timing/mod.rs ServerTiming::new
//@ ret r
ensures r.timings@.len() == 0,
//@ end
//@ fn src/trace/server_timing/mod.rs ServerTiming::push
ensures final(self).timings@ == old(self).timings@.push(entry),
//@ end
//@ fn src/trace/server_timing/metric.rs Metric::new
//@ ret r
ensures
    match r {
        Ok(m) => mv(m) == (name@, dur, opt_text(desc)) && ascii_chars(name@) && (desc is Some ==> ascii_chars((desc->0)@)),
        Err(_) => !(ascii_chars(name@) && (desc is Some ==> ascii_chars((desc->0)@))),
    },
//@ end
//@ fn src/trace/server_timing/metric.rs Metric::name
//@ ret r
ensures r@ == mv(*self).0,
//@ end
//@ fn src/trace/server_timing/metric.rs Metric::duration
//@ ret r
ensures r == mv(*self).1,
//@ end
//@ fn src/trace/server_timing/metric.rs Metric::description
//@ ret r
//@ rewrite "self.desc.as_deref()" => "opt_as_deref(&self.desc)"
ensures match r { Some(t) => mv(*self).2 == Some(t@), None => mv(*self).2 is None },
//@ end
pub open spec fn timing_list(vs: Seq<Seq<char>>) -> Option<Seq<Mv>> { fold(vs, vs.len() as int, Some(seq![]), timing_line()) }
//@ fn src/trace/server_timing/mod.rs ServerTiming::from_headers
//@ ret r
ensures
    match header_values(headers, "server-timing"@) {
        None => r == Ok::<Option<ServerTiming>, Error>(None),
        Some(vs) => match timing_list(texts(vs)) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(x) => r is Ok && r->Ok_0 is Some && mvs((r->Ok_0->0).timings@) == x,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(SERVER_TIMING)" => "header_get(headers, \"server-timing\")"
//@ attr #[verifier::loop_isolation(false)]
//@ at start
let ghost z: Option<Seq<Mv>> = Some(seq![]);
proof { lemma_timings_strict(); }
//@ loop 0 it=it
invariant
    it.seq().len() == headers@.len(),
    forall|i: int| 0 <= i < headers@.len() ==> *(#[trigger] it.seq()[i]) == headers@[i],
    fold(texts(headers@), it.index@, z, timing_line()) == Some(mvs(timings@)),
//@ at loop 0 before
proof { assert(mvs(timings@) =~= seq![]); }
//@ at loop 0 start
let ghost n = it.index@;
let ghost vs = texts(headers@);
proof {
    assert(vs[n] == value.inner@);
    assert(fold(vs, n + 1, z, timing_line()) == timing_line()(fold(vs, n, z, timing_line()), vs[n]));
    if fold(vs, n + 1, z, timing_line()) is None { lemma_fold_none(vs, n + 1, vs.len() as int, z, timing_line()); }
}
//@ end
pub open spec fn opt_ascii(d: Option<Seq<char>>) -> bool { match d { Some(t) => ascii_chars(t), None => true } }
// what Metric::new and the reader establish
pub open spec fn well(m: Mv) -> bool { ascii_chars(m.0) && opt_ascii(m.2) }
pub open spec fn dur_text(d: Option<Duration>) -> Seq<char> { match d { Some(x) => "; dur="@ + f64_text(millis_of(x)), None => seq![] } }
pub open spec fn desc_text(d: Option<Seq<char>>) -> Seq<char> { match d { Some(x) => "; desc="@ + (seq!['"'] + esc(x) + seq!['"']), None => seq![] } }
pub open spec fn metric_text(m: Mv) -> Seq<char> { m.0 + dur_text(m.1) + desc_text(m.2) }
pub proof fn lemma_metric_ascii(m: Mv)
    requires well(m),
    ensures ascii_chars(metric_text(m)),
{
    broadcast use axiom_f64_text;
    reveal_strlit("; dur="); reveal_strlit("; desc=");
    if m.1 is Some { let t = f64_text(millis_of(m.1->0)); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 by { assert(numberc(t[i])); } }
    if m.2 is Some { lemma_esc_ascii(m.2->0); }
    assert(ascii_chars(dur_text(m.1)));
    assert(ascii_chars(desc_text(m.2)));
}
impl HeaderValue {
//@ fn src/trace/server_timing/metric.rs <HeaderValue as From<Metric>>::from
//@ bare
//@ rename from_metric
//@ ret r
requires well(mv(entry)),
ensures r.inner@ == metric_text(mv(entry)),
//@ fmt
//@ rewrite "d.as_secs_f64() * 1000.0" => "as_millis_f64(d)"
//@ closure 0 types="Duration" ret="y: f64"
ensures y == millis_of(d),
//@ at start
broadcast use {axiom_utf8_ascii, axiom_f64_text};
let ghost m = mv(entry);
proof {
    lemma_metric_ascii(m);
    reveal_strlit("; dur="); reveal_strlit("; desc=");
    assert(m.0 + seq![] + seq![] =~= m.0);
    if m.2 is Some { assert(m.0 + seq![] + desc_text(m.2) =~= m.0 + desc_text(m.2)); }
    assert(m.0 + dur_text(m.1) + seq![] =~= m.0 + dur_text(m.1));
    assert(m.0 + dur_text(m.1) + desc_text(m.2) =~= m.0 + (dur_text(m.1) + desc_text(m.2)));
}
//@ at tail
proof { assert(string@ =~= metric_text(m)); assert(string@ == metric_text(m)); }
//@ end
}
// TRUSTED: the derived Clone of Metric
#[verifier::external_body]
pub fn metric_clone(m: &Metric) -> (r: Metric) ensures mv(r) == mv(*m) { unimplemented!() }
pub open spec fn metric_texts(ms: Seq<Mv>) -> Seq<Seq<char>> { ms.map_values(|m: Mv| metric_text(m)) }
impl ServerTiming {
//@ fn src/trace/server_timing/mod.rs <ServerTiming as Header>::header_value
//@ bare
//@ ret r
requires forall|i: int| 0 <= i < self.timings@.len() ==> well(mv(#[trigger] self.timings@[i])),
ensures r.inner@ == joined(metric_texts(mvs(self.timings@))),
//@ fmt
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "timing.clone().into()" => "HeaderValue::from_metric(metric_clone(timing))"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
let ghost es = metric_texts(mvs(self.timings@));
proof { reveal_strlit(", "); let n = self.timings.len(); assert(es.subrange(0, 0) =~= seq![]); }
//@ loop 0 it=it
invariant
    it.seq().len() == self.timings@.len(),
    forall|i: int| 0 <= i < self.timings@.len() ==> *(#[trigger] it.seq()[i]) == self.timings@[i],
    vx_n0 == it.index@,
    output@ == joined(es.subrange(0, it.index@)),
    ascii_chars(output@),
//@ at loop 0 start
let ghost k = it.index@;
proof {
    lemma_metric_ascii(mv(self.timings@[k]));
    assert(es[k] == metric_text(mv(self.timings@[k])));
    lemma_joined_push(es.subrange(0, k), es[k]);
    assert(es.subrange(0, k + 1) =~= es.subrange(0, k).push(es[k]));
}
//@ at loop 0 end
proof { assert(output@ =~= joined(es.subrange(0, k + 1))); }
//@ at loop 0 after
proof { assert(es.subrange(0, es.len() as int) =~= es); }
//@ end
}
// What is written reads back, for names that are names, printable descriptions and durations that
// survive being printed.
pub open spec fn namec(c: char) -> bool { c != ',' && c != ';' && c != '"' }
pub open spec fn writable(m: Mv) -> bool {
    well(m) && tight(m.0) && (forall|i: int| 0 <= i < m.0.len() ==> namec(#[trigger] m.0[i]))
    && (match m.1 { Some(d) => dur_of(f64_text(millis_of(d))) == Some(d), None => true })
    && (match m.2 { Some(t) => printable(t), None => true })
}
pub proof fn lemma_trimmed_space(s: Seq<char>)
    requires s.len() > 0, !white(s[0]),
    ensures trims(s) == s, trims(" "@ + s) == s,
{
    broadcast use axiom_white;
    reveal_strlit(" ");
    assert((" "@ + s).drop_first() =~= s);
    assert((" "@ + s)[0] == ' ');
}
pub proof fn lemma_halves_key(k: Seq<char>, v: Seq<char>)
    requires first(k, is_char('=')) == k.len(),
    ensures halves(k + seq!['='] + v, '=') == seq![k, v],
{
    let t = k + seq!['='] + v;
    lemma_first(k, is_char('='));
    assert forall|j: int| 0 <= j < k.len() implies !is_char('=')(#[trigger] t[j]) by { assert(t[j] == k[j]); }
    assert(t[k.len() as int] == '=');
    lemma_first_is(t, is_char('='), k.len() as int);
    assert(t.subrange(0, k.len() as int) =~= k);
    assert(t.subrange(k.len() as int + 1, t.len() as int) =~= v);
}
pub proof fn lemma_dur_param(m: Mv, d: Duration)
    requires dur_of(f64_text(millis_of(d))) == Some(d),
    ensures
        param()(Some(m), " dur="@ + f64_text(millis_of(d))) == Some((m.0, Some(d), m.2)),
        closed(" dur="@ + f64_text(millis_of(d)), ','), closed(" dur="@ + f64_text(millis_of(d)), ';'),
{
    broadcast use {axiom_f64_text, axiom_white};
    let v = f64_text(millis_of(d));
    let t = " dur="@ + v;
    reveal_strlit(" dur="); reveal_strlit("dur"); reveal_strlit(" ");
    assert(t =~= " "@ + ("dur"@ + seq!['='] + v));
    assert(("dur"@ + seq!['='] + v)[0] == 'd');
    lemma_trimmed_space("dur"@ + seq!['='] + v);
    lemma_first_is("dur"@, is_char('='), 3);
    lemma_halves_key("dur"@, v);
    assert("dur"@.last() == 'r');
    assert(trime("dur"@) == "dur"@);
    assert(numberc(v[0]));
    assert(trims(v) == v);
    assert forall|i: int| 0 <= i < t.len() implies unquotedc(',', #[trigger] t[i]) && unquotedc(';', t[i]) by { if i >= 5 { assert(numberc(v[i - 5])); } }
    lemma_closed_plain(t, ',');
    lemma_closed_plain(t, ';');
}
pub proof fn lemma_desc_param(m: Mv, d: Seq<char>)
    requires printable(d),
    ensures
        param()(Some(m), " desc="@ + (seq!['"'] + esc(d) + seq!['"'])) == Some((m.0, m.1, Some(d))),
        closed(" desc="@ + (seq!['"'] + esc(d) + seq!['"']), ','), closed(" desc="@ + (seq!['"'] + esc(d) + seq!['"']), ';'),
{
    broadcast use axiom_white;
    let v = seq!['"'] + esc(d) + seq!['"'];
    let t = " desc="@ + v;
    reveal_strlit(" desc="); reveal_strlit("desc"); reveal_strlit("dur"); reveal_strlit(" ");
    assert("desc"@.len() == 4 && "dur"@.len() == 3);
    assert(t =~= " "@ + ("desc"@ + seq!['='] + v));
    assert(("desc"@ + seq!['='] + v)[0] == 'd');
    lemma_trimmed_space("desc"@ + seq!['='] + v);
    lemma_first_is("desc"@, is_char('='), 4);
    lemma_halves_key("desc"@, v);
    assert("desc"@.last() == 'c');
    assert(trime("desc"@) == "desc"@);
    assert(v[0] == '"');
    assert(trims(v) == v);
    lemma_esc_scan(d, seq![]);
    let n = esc(d).len() as int + 1;
    assert(suf(v, 1) =~= esc(d) + seq!['"'] + seq![]);
    assert(v.subrange(1, n) =~= esc(d));
    assert(suf(v, n + 1) =~= seq![]);
    assert(quoted(v) == Some((d, suf(v, n + 1))));
    let k = " desc="@;
    assert forall|i: int| 0 <= i < k.len() implies unquotedc(',', #[trigger] k[i]) && unquotedc(';', k[i]) by {}
    lemma_closed_plain(k, ','); lemma_closed_plain(k, ';');
    lemma_closed_quoted(d, ','); lemma_closed_quoted(d, ';');
    lemma_closed_append(k, v, ','); lemma_closed_append(k, v, ';');
}
pub proof fn lemma_usplits_key(a: Seq<char>, y: Seq<char>, c: char)
    requires closed(a, c), closed(y, c), c != '"',
    ensures usplits(a + seq![c] + y, c) == seq![a, y],
{ lemma_usplits_append(a, y, c); assert(usplits(a, c) =~= seq![a]); assert(usplits(y, c) =~= seq![y]); }
pub open spec fn pieces(m: Mv) -> Seq<Seq<char>> {
    seq![m.0] + (match m.1 { Some(d) => seq![" dur="@ + f64_text(millis_of(d))], None => seq![] }) + (match m.2 { Some(d) => seq![" desc="@ + (seq!['"'] + esc(d) + seq!['"'])], None => seq![] })
}
pub proof fn lemma_metric_pieces(m: Mv)
    requires writable(m),
    ensures usplits(metric_text(m), ';') == pieces(m), closed(metric_text(m), ','), tight(metric_text(m)),
{
    broadcast use {axiom_f64_text, axiom_white};
    let t = metric_text(m);
    let e: Seq<Seq<char>> = seq![];
    let semi = seq![';'];
    reveal_strlit("; dur="); reveal_strlit("; desc="); reveal_strlit(" dur="); reveal_strlit(" desc=");
    assert forall|i: int| 0 <= i < m.0.len() implies unquotedc(',', #[trigger] m.0[i]) && unquotedc(';', m.0[i]) by { assert(namec(m.0[i])); }
    lemma_closed_plain(m.0, ','); lemma_closed_plain(m.0, ';');
    lemma_closed_plain(semi, ',');
    assert(usplits(m.0, ';') =~= seq![m.0]);
    let a = m.0 + dur_text(m.1);
    assert(m.0 + seq![] =~= m.0);
    if m.1 is Some {
        let d = m.1->0;
        let v = " dur="@ + f64_text(millis_of(d));
        lemma_dur_param(m, d);
        assert(a =~= m.0 + semi + v);
        lemma_usplits_key(m.0, v, ';');
        lemma_closed_append(m.0, semi, ',');
        lemma_closed_append(m.0 + semi, v, ',');
        lemma_u_append(m.0, semi, ',', false, false);
        lemma_u_append(m.0 + semi, v, ',', false, false);
        assert(usplits(a, ';') =~= seq![m.0, v]);
        assert(numberc(f64_text(millis_of(d)).last()));
        assert(a.last() == f64_text(millis_of(d)).last());
        assert(a[0] == m.0[0]);
    } else { assert(a =~= m.0); }
    assert(tight(a) && closed(a, ','));
    if m.2 is Some {
        let d = m.2->0;
        let q = seq!['"'] + esc(d) + seq!['"'];
        let v = " desc="@ + q;
        lemma_desc_param(m, d);
        assert(t =~= a + semi + v);
        lemma_usplits_append(a, v, ';');
        assert(usplits(v, ';') =~= seq![v]);
        lemma_closed_append(a, semi, ',');
        lemma_closed_append(a + semi, v, ',');
        assert(t.last() == '"');
        assert(t[0] == a[0]);
    } else { assert(t =~= a); }
    assert(usplits(t, ';') =~= pieces(m));
}
pub proof fn lemma_metric_reads(m: Mv)
    requires writable(m),
    ensures entry(metric_text(m)) == Some(m), entry(" "@ + metric_text(m)) == Some(m), trim(metric_text(m)) == metric_text(m), trim(" "@ + metric_text(m)) == metric_text(m),
{
    let t = metric_text(m);
    lemma_metric_pieces(m);
    lemma_trim_id(t);
    lemma_trim_space(t);
    let ps = pieces(m).drop_first();
    let n = pieces(m).len() - 1;
    assert(trime(m.0) == m.0);
    let z: Option<Mv> = Some((m.0, None, None));
    reveal_with_fuel(fold, 3);
    if m.1 is Some { lemma_dur_param((m.0, None, None), m.1->0); }
    if m.2 is Some { lemma_desc_param((m.0, m.1, None), m.2->0); }
    assert(fold(ps, n, z, param()) == Some(m));
}
pub proof fn lemma_timings_fold(ms: Seq<Mv>, n: int)
    requires forall|i: int| 0 <= i < ms.len() ==> writable(#[trigger] ms[i]), 0 <= n <= ms.len(),
    ensures fold(metric_texts(ms), n, Some(seq![]), timings()) == Some(ms.subrange(0, n)),
    decreases n,
{
    if n > 0 {
        lemma_timings_fold(ms, n - 1);
        lemma_metric_reads(ms[n - 1]);
        lemma_metric_pieces(ms[n - 1]);
        assert(ms.subrange(0, n) =~= ms.subrange(0, n - 1).push(ms[n - 1]));
        assert(metric_texts(ms)[n - 1] == metric_text(ms[n - 1]));
    } else { assert(ms.subrange(0, 0) =~= seq![]); }
}
pub proof fn lemma_server_timing_reads(ms: Seq<Mv>)
    requires forall|i: int| 0 <= i < ms.len() ==> writable(#[trigger] ms[i]),
    ensures timing_list(seq![joined(metric_texts(ms))]) == Some(ms),
{
    let ts = metric_texts(ms);
    let f = timings();
    let z: Option<Seq<Mv>> = Some(seq![]);
    assert forall|i: int| 0 <= i < ts.len() implies closed(#[trigger] ts[i], ',') && tight(ts[i]) by { lemma_metric_pieces(ms[i]); }
    assert forall|i: int, a: Option<Seq<Mv>>| 0 <= i < ts.len() implies #[trigger] f(a, " "@ + ts[i]) == f(a, ts[i]) by { lemma_metric_reads(ms[i]); }
    assert forall|a: Option<Seq<Mv>>| #[trigger] f(a, seq![]) == a by { assert(trim(seq![]) =~= seq![]); }
    lemma_ulist_reads(ts, z, f);
    lemma_joined_tight(ts);
    lemma_timings_fold(ms, ms.len() as int);
    assert(ms.subrange(0, ms.len() as int) =~= ms);
    let t = joined(ts);
    assert(fold(seq![t], 1, z, timing_line()) == timing_line()(fold(seq![t], 0, z, timing_line()), t));
}
}
fn main() {}
