//@ # P19: Allow and Vary.
use std::collections::{hash_set, HashSet};
//@ include hdr.inc
//@ include hmap.inc
//@ item src/method.rs enum Method #[derive(Clone, Copy, PartialEq, Eq, Hash)]
//@ include method_names.inc
// the method a text names
pub open spec fn method_of(s: Seq<char>) -> Option<Method> {
    if exists|m: Method| method_name(m) == upper(s) { Some(choose|m: Method| method_name(m) == upper(s)) } else { None }
}
// TRUSTED (contracts discharged in unit method): reading a method, and its text.
impl Method {
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: CrateResult<Method>)
        ensures
            r matches Ok(m) ==> method_name(m) == upper(s@),
            (exists|m: Method| method_name(m) == upper(s@)) ==> r is Ok,
    { unimplemented!() }
}
impl Show for Method { open spec fn shown(&self) -> Seq<char> { method_name(*self) } }
pub open spec fn namec(c: char) -> bool { ('A' <= c && c <= 'Z') || c == '-' }
pub proof fn lemma_method_chars(m: Method)
    ensures 3 <= method_name(m).len() <= 17, forall|i: int| 0 <= i < method_name(m).len() ==> namec(#[trigger] method_name(m)[i]),
{
    reveal_strlit("ACL"); reveal_strlit("BASELINE-CONTROL"); reveal_strlit("BIND"); reveal_strlit("CHECKIN"); reveal_strlit("CHECKOUT"); reveal_strlit("CONNECT");
    reveal_strlit("COPY"); reveal_strlit("DELETE"); reveal_strlit("GET"); reveal_strlit("HEAD"); reveal_strlit("LABEL"); reveal_strlit("LINK");
    reveal_strlit("LOCK"); reveal_strlit("MERGE"); reveal_strlit("MKACTIVITY"); reveal_strlit("MKCALENDAR"); reveal_strlit("MKCOL"); reveal_strlit("MKREDIRECTREF");
    reveal_strlit("MKWORKSPACE"); reveal_strlit("MOVE"); reveal_strlit("OPTIONS"); reveal_strlit("ORDERPATCH"); reveal_strlit("PATCH"); reveal_strlit("POST");
    reveal_strlit("PRI"); reveal_strlit("PROPFIND"); reveal_strlit("PROPPATCH"); reveal_strlit("PUT"); reveal_strlit("REBIND"); reveal_strlit("REPORT");
    reveal_strlit("SEARCH"); reveal_strlit("TRACE"); reveal_strlit("UNBIND"); reveal_strlit("UNCHECKOUT"); reveal_strlit("UNLINK"); reveal_strlit("UNLOCK");
    reveal_strlit("UPDATE"); reveal_strlit("UPDATEREDIRECTREF"); reveal_strlit("VERSION-CONTROL");
}
pub proof fn lemma_method_name(m: Method)
    ensures
        upper(method_name(m)) == method_name(m), method_of(method_name(m)) == Some(m),
        tight(method_name(m)), ascii_chars(method_name(m)), first(method_name(m), is_char(',')) == method_name(m).len(),
{
    broadcast use axiom_white;
    let t = method_name(m);
    lemma_method_chars(m);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 && t[i] != ',' && upper_char(t[i]) == t[i] by { assert(namec(t[i])); }
    assert(namec(t[0]) && namec(t[t.len() - 1]));
    assert(upper(t) =~= t);
    lemma_method_of();
    lemma_first_is(t, is_char(','), t.len() as int);
}
// TRUSTED: Method's derived Hash and Eq agree; the elements of a set in some order.
pub axiom fn axiom_method_key() ensures vstd::std_specs::hash::obeys_key_model::<Method>();
pub open spec fn deref_all(v: Seq<&Method>) -> Seq<Method> { v.map_values(|m: &Method| *m) }
#[verifier::external_body]
pub fn set_items<'a>(s: &'a HashSet<Method>) -> (r: Vec<&'a Method>)
    ensures deref_all(r@).no_duplicates(), deref_all(r@).to_set() == s@,
{ s.iter().collect() }
//@ item src/server/allow.rs struct Allow
pub open spec fn allow_step() -> spec_fn(Option<Set<Method>>, Seq<char>) -> Option<Set<Method>> {
    |acc: Option<Set<Method>>, p: Seq<char>| match acc {
        None => None,
        Some(x) => if trim(p).len() == 0 { acc } else { match method_of(trim(p)) { Some(m) => Some(x.insert(m)), None => None } },
    }
}
pub open spec fn tline<A>(f: spec_fn(Option<A>, Seq<char>) -> Option<A>) -> spec_fn(Option<A>, Seq<char>) -> Option<A> {
    |acc: Option<A>, v: Seq<char>| { let ps = splits(trim(v), ','); fold(ps, ps.len() as int, acc, f) }
}
pub proof fn lemma_tline<A>(f: spec_fn(Option<A>, Seq<char>) -> Option<A>)
    requires strict(f),
    ensures strict(tline(f)),
{
    assert forall|v: Seq<char>| #[trigger] tline(f)(None, v) is None by { let ps = splits(trim(v), ','); lemma_fold_none(ps, 0, ps.len() as int, None, f); }
}
pub open spec fn allow(vs: Seq<Seq<char>>) -> Option<Set<Method>> { fold(vs, vs.len() as int, Some(Set::empty()), tline(allow_step())) }
//@ fn src/server/allow.rs Allow::new
//@ ret r
ensures r.entries@ == Set::<Method>::empty(),
//@ at start
broadcast use vstd::std_specs::hash::group_hash_axioms;
proof { axiom_method_key(); }
//@ end
//@ fn src/server/allow.rs Allow::insert
ensures final(self).entries@ == old(self).entries@.insert(method),
//@ at start
broadcast use vstd::std_specs::hash::group_hash_axioms;
proof { axiom_method_key(); }
//@ end
//@ fn src/server/allow.rs Allow::contains
//@ ret r
ensures r == self.entries@.contains(method),
//@ at start
broadcast use vstd::std_specs::hash::group_hash_axioms;
proof { axiom_method_key(); }
//@ end
//@ fn src/server/allow.rs Allow::from_headers
//@ ret r
ensures
    match header_values(headers, "allow"@) {
        None => r == Ok::<Option<Allow>, Error>(None),
        Some(vs) => match allow(texts(vs)) {
            None => r is Err,
            Some(x) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).entries@ == x,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(ALLOW)" => "header_get(headers, \"allow\")"
//@ rewrite "value.as_str().trim().split(',')" => "str_split(str_trim(value.as_str()), ',')"
//@ rewrite "part.trim()" => "str_trim(part)"
//@ rewrite "part.is_empty()" => "str_is_empty(part)"
//@ attr #[verifier::loop_isolation(false)]
//@ at start
broadcast use vstd::std_specs::hash::group_hash_axioms;
let ghost z: Option<Set<Method>> = Some(Set::empty());
let ghost f = tline(allow_step());
proof { axiom_method_key(); lemma_tline(allow_step()); lemma_method_of(); }
//@ loop 0 it=it
invariant
    it.seq().len() == headers@.len(),
    forall|i: int| 0 <= i < headers@.len() ==> *(#[trigger] it.seq()[i]) == headers@[i],
    fold(texts(headers@), it.index@, z, f) == Some(entries@),
//@ at loop 0 start
let ghost n = it.index@;
let ghost vs = texts(headers@);
let ghost a = fold(vs, n, z, f);
let ghost ps = splits(trim(value.inner@), ',');
proof { assert(vs[n] == value.inner@); assert(fold(vs, n + 1, z, f) == f(a, vs[n])); assert(f(a, vs[n]) == fold(ps, ps.len() as int, a, allow_step())); }
//@ loop 1 it=it2
invariant
    it2.seq().len() == ps.len(),
    forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it2.seq()[i])@ == ps[i],
    fold(ps, it2.index@, a, allow_step()) == Some(entries@),
//@ at loop 1 start
let ghost m = it2.index@;
proof {
    assert(part@ == ps[m]);
    assert(fold(ps, m + 1, a, allow_step()) == allow_step()(fold(ps, m, a, allow_step()), ps[m]));
    if fold(ps, m + 1, a, allow_step()) is None { lemma_fold_none(ps, m + 1, ps.len() as int, a, allow_step()); lemma_fold_none(vs, n + 1, vs.len() as int, z, f); }
}
//@ end
pub proof fn lemma_method_of()
    ensures forall|s: Seq<char>, m: Method| #![trigger method_of(s), method_name(m)] method_name(m) == upper(s) ==> method_of(s) == Some(m),
{
    assert forall|s: Seq<char>, m: Method| #![trigger method_of(s), method_name(m)] method_name(m) == upper(s) implies method_of(s) == Some(m) by {
        lemma_method_names_distinct(m, method_of(s)->0);
    }
}
pub open spec fn method_texts(ms: Seq<Method>) -> Seq<Seq<char>> { ms.map_values(|m: Method| method_name(m)) }
// the names of exactly these methods, each once
pub open spec fn names_of(t: Seq<char>, s: Set<Method>) -> bool { exists|ms: Seq<Method>| #[trigger] ms.no_duplicates() && ms.to_set() == s && t == joined(method_texts(ms)) }
impl Allow {
//@ fn src/server/allow.rs <Allow as Header>::header_value
//@ bare
//@ ret r
ensures names_of(r.inner@, self.entries@),
//@ fmt
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "self.entries.iter()" => "items"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
let items = set_items(&self.entries);
let ghost ms = deref_all(items@);
let ghost es = method_texts(ms);
proof { reveal_strlit(", "); let n = items.len(); assert(es.subrange(0, 0) =~= seq![]); }
//@ loop 0 it=it
invariant
    it.seq().len() == ms.len(),
    forall|i: int| 0 <= i < ms.len() ==> *(#[trigger] it.seq()[i]) == ms[i],
    vx_n0 == it.index@,
    output@ == joined(es.subrange(0, it.index@)),
    ascii_chars(output@),
//@ at loop 0 start
let ghost k = it.index@;
proof {
    assert(*method == ms[k]);
    assert(es[k] == method_name(*method));
    lemma_method_name(*method);
    lemma_joined_push(es.subrange(0, k), es[k]);
    assert(es.subrange(0, k + 1) =~= es.subrange(0, k).push(es[k]));
}
//@ at loop 0 end
proof { assert(output@ =~= joined(es.subrange(0, k + 1))); }
//@ at loop 0 after
proof { assert(es.subrange(0, es.len() as int) =~= es); }
//@ end
}
// what is written reads back as the same set
pub proof fn lemma_allow_fold(ms: Seq<Method>, n: int)
    requires 0 <= n <= ms.len(),
    ensures fold(method_texts(ms), n, Some(Set::empty()), allow_step()) == Some(ms.subrange(0, n).to_set()),
    decreases n,
{
    if n > 0 {
        lemma_allow_fold(ms, n - 1);
        let m = ms[n - 1];
        lemma_method_name(m);
        assert(method_texts(ms)[n - 1] == method_name(m));
        lemma_trim_id(method_name(m));
        let a = ms.subrange(0, n - 1);
        assert(ms.subrange(0, n) =~= a.push(m));
        assert(a.push(m).to_set() =~= a.to_set().insert(m)) by {
            assert forall|x: Method| a.push(m).to_set().contains(x) implies a.to_set().insert(m).contains(x) by {}
            assert forall|x: Method| a.to_set().insert(m).contains(x) implies a.push(m).to_set().contains(x) by {
                if x == m { assert(a.push(m)[n - 1] == m); } else { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(a.push(m)[i] == x); }
            }
        }
    } else { assert(ms.subrange(0, 0).to_set() =~= Set::<Method>::empty()); }
}
pub proof fn lemma_allow_reads(ms: Seq<Method>)
    ensures allow(seq![joined(method_texts(ms))]) == Some(ms.to_set()),
{
    let ts = method_texts(ms);
    let f = allow_step();
    let z: Option<Set<Method>> = Some(Set::empty());
    assert forall|i: int| 0 <= i < ts.len() implies first(#[trigger] ts[i], is_char(',')) == ts[i].len() && tight(ts[i]) by { lemma_method_name(ms[i]); assert(ts[i] == method_name(ms[i])); }
    assert forall|i: int, a: Option<Set<Method>>| 0 <= i < ts.len() implies #[trigger] f(a, " "@ + ts[i]) == f(a, ts[i]) by { lemma_trim_id(ts[i]); lemma_trim_space(ts[i]); }
    assert forall|a: Option<Set<Method>>| #[trigger] f(a, seq![]) == a by { assert(trim(seq![]) =~= seq![]); }
    lemma_list_reads(ts, z, f);
    lemma_joined_tight(ts);
    lemma_allow_fold(ms, ms.len() as int);
    assert(ms.subrange(0, ms.len() as int) =~= ms);
    let t = joined(ts);
    assert(fold(seq![t], 1, z, tline(f)) == tline(f)(fold(seq![t], 0, z, tline(f)), t));
}
// --- Vary
pub proof fn lemma_start(s: Seq<char>)
    ensures ({ let t = trimmed_start(s, is_white()); t.len() == 0 || (!white(t[0]) && t.last() == s.last()) }), trimmed_start(s, is_white()).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 && white(s[0]) { lemma_start(s.drop_first()); if s.len() > 1 { assert(s.drop_first().last() == s.last()); } } }
pub proof fn lemma_end(s: Seq<char>)
    ensures ({ let t = trimmed_end(s, is_white()); t.len() == 0 || !white(t.last()) }),
    decreases s.len(),
{ if s.len() > 0 && white(s.last()) { lemma_end(s.drop_last()); } }
pub proof fn lemma_trim_trim()
    ensures forall|s: Seq<char>| #[trigger] trim(trim(s)) == trim(s),
{
    assert forall|s: Seq<char>| #[trigger] trim(trim(s)) == trim(s) by {
        lemma_end(s); lemma_start(trimmed_end(s, is_white()));
        let t = trim(s);
        if t.len() > 0 { lemma_trim_id(t); } else { assert(trimmed_end(t, is_white()) == t); }
    }
}
//@ item src/conditional/vary.rs struct Vary
pub type Vy = (Seq<Seq<char>>, bool);
pub open spec fn name_texts(v: Seq<HeaderName>) -> Seq<Seq<char>> { v.map_values(|n: HeaderName| cowv(n.0)) }
pub open spec fn vv(v: Vary) -> Vy { (name_texts(v.entries@), v.wildcard) }
// TRUSTED (contracts discharged in unit headers): names and values from text.
#[verifier::external_body]
pub fn name_from_str(s: &str) -> (r: CrateResult<HeaderName>) ensures r is Ok <==> ascii_chars(s@), r matches Ok(n) ==> cowv(n.0) == lower(s@) { unimplemented!() }
#[verifier::external_body]
pub fn value_from_str(s: &str) -> (r: CrateResult<HeaderValue>) ensures r is Ok <==> ascii_chars(s@), r matches Ok(v) ==> v.inner@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn name_str<'a>(n: &'a HeaderName) -> (r: &'a str) ensures r@ == cowv(n.0) { unimplemented!() }
pub open spec fn vary_step() -> spec_fn(Option<Vy>, Seq<char>) -> Option<Vy> {
    |acc: Option<Vy>, p: Seq<char>| match acc {
        None => None,
        Some(x) => {
            let t = trim(p);
            if t == "*"@ { Some((x.0, true)) } else if t.len() == 0 { acc }
            else if ascii_chars(t) { Some((x.0.push(lower(t)), x.1)) } else { None }
        },
    }
}
pub open spec fn vary(vs: Seq<Seq<char>>) -> Option<Vy> { fold(vs, vs.len() as int, Some((seq![], false)), tline(vary_step())) }
//@ fn src/conditional/vary.rs Vary::new
//@ ret r
ensures vv(r) == (Seq::<Seq<char>>::empty(), false),
//@ at tail
proof { assert(name_texts(seq![]) =~= seq![]); }
//@ end
//@ fn src/conditional/vary.rs Vary::wildcard
//@ ret r
ensures r == vv(*self).1,
//@ end
//@ fn src/conditional/vary.rs Vary::set_wildcard
ensures vv(*final(self)) == (vv(*old(self)).0, wildcard),
//@ end
//@ fn src/conditional/vary.rs Vary::push
//@ ret r
ensures r is Ok, vv(*final(self)) == (vv(*old(self)).0.push(cowv(directive.0)), vv(*old(self)).1),
//@ rewrite "directive: impl Into<HeaderName>" => "directive: HeaderName"
//@ rewrite "directive.into()" => "directive"
//@ at tail
proof { assert(name_texts(self.entries@) =~= name_texts(old(self).entries@).push(cowv(directive.0))); }
//@ end
//@ fn src/conditional/vary.rs Vary::from_headers
//@ ret r
ensures
    match header_values(headers, "vary"@) {
        None => r == Ok::<Option<Vary>, Error>(None),
        Some(vs) => match vary(texts(vs)) {
            None => r is Err,
            Some(x) => r is Ok && r->Ok_0 is Some && vv(r->Ok_0->0) == x,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(VARY)" => "header_get(headers, \"vary\")"
//@ rewrite "value.as_str().trim().split(',')" => "str_split(str_trim(value.as_str()), ',')"
//@ rewrite "part.trim()" => "str_trim(part)"
//@ rewrite "part.is_empty()" => "str_is_empty(part)"
//@ rewrite "part == \"*\"" => "str_eq(part, \"*\")"
//@ rewrite "HeaderName::from_str(" => "name_from_str("
//@ attr #[verifier::loop_isolation(false)]
//@ at start
let ghost z: Option<Vy> = Some((seq![], false));
let ghost f = tline(vary_step());
proof { lemma_tline(vary_step()); lemma_trim_trim(); assert(name_texts(seq![]) =~= seq![]); }
//@ loop 0 it=it
invariant
    it.seq().len() == headers@.len(),
    forall|i: int| 0 <= i < headers@.len() ==> *(#[trigger] it.seq()[i]) == headers@[i],
    fold(texts(headers@), it.index@, z, f) == Some((name_texts(entries@), wildcard)),
//@ at loop 0 start
let ghost n = it.index@;
let ghost vs = texts(headers@);
let ghost a = fold(vs, n, z, f);
let ghost ps = splits(trim(value.inner@), ',');
proof { assert(vs[n] == value.inner@); assert(fold(vs, n + 1, z, f) == f(a, vs[n])); assert(f(a, vs[n]) == fold(ps, ps.len() as int, a, vary_step())); }
//@ loop 1 it=it2
invariant
    it2.seq().len() == ps.len(),
    forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it2.seq()[i])@ == ps[i],
    fold(ps, it2.index@, a, vary_step()) == Some((name_texts(entries@), wildcard)),
//@ at loop 1 start
let ghost m = it2.index@;
let ghost es = entries@;
proof {
    assert(part@ == ps[m]);
    assert(trim(trim(ps[m])) == trim(ps[m]));
    assert(fold(ps, m + 1, a, vary_step()) == vary_step()(fold(ps, m, a, vary_step()), ps[m]));
    if fold(ps, m + 1, a, vary_step()) is None { lemma_fold_none(ps, m + 1, ps.len() as int, a, vary_step()); lemma_fold_none(vs, n + 1, vs.len() as int, z, f); }
}
//@ at loop 1 end
proof { if entries@.len() > es.len() { assert(name_texts(entries@) =~= name_texts(es).push(cowv(entries@.last().0))); } }
//@ end
pub open spec fn vary_texts(x: Vy) -> Seq<Seq<char>> { if x.1 { x.0.push("*"@) } else { x.0 } }
impl Vary {
//@ fn src/conditional/vary.rs <Vary as Header>::header_value
//@ bare
//@ ret r
requires forall|i: int| 0 <= i < self.entries@.len() ==> ascii_chars(cowv(#[trigger] self.entries@[i].0)) && cowv(self.entries@[i].0).len() > 0,
ensures r.inner@ == joined(vary_texts(vv(*self))),
//@ fmt
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "output.into()" => "output.into_bytes()"
//@ rewrite "output.len()" => "str_len(output.as_str())"
//@ rewrite "name\n                .as_str()\n                .parse()" => "value_from_str(name_str(name))"
//@ at start
broadcast use axiom_utf8_ascii;
let ghost es = name_texts(self.entries@);
proof { reveal_strlit(", "); reveal_strlit("*"); reveal_strlit(", *"); let n = self.entries.len(); assert(es.subrange(0, 0) =~= seq![]); }
//@ loop 0 it=it
invariant
    it.seq().len() == self.entries@.len(),
    forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] it.seq()[i]) == self.entries@[i],
    vx_n0 == it.index@,
    output@ == joined(es.subrange(0, it.index@)),
    it.index@ > 0 ==> output@.len() > 0,
    ascii_chars(output@),
//@ at loop 0 start
let ghost k = it.index@;
proof {
    assert(es[k] == cowv(self.entries@[k].0));
    lemma_joined_push(es.subrange(0, k), es[k]);
    assert(es.subrange(0, k + 1) =~= es.subrange(0, k).push(es[k]));
}
//@ at loop 0 end
proof { assert(output@ =~= joined(es.subrange(0, k + 1))); }
//@ at loop 0 after
proof {
    assert(es.subrange(0, es.len() as int) =~= es);
    lemma_joined_push(es, "*"@);
    lemma_off_mono(output@, 0, output@.len() as int);
    assert(", *"@ =~= ", "@ + "*"@);
}
//@ at tail
proof { assert(output@ =~= joined(vary_texts(vv(*self)))); }
//@ end
}
// a name as it can be listed
pub open spec fn listed(t: Seq<char>) -> bool { tight(t) && ascii_chars(t) && lower(t) == t && t != "*"@ && first(t, is_char(',')) == t.len() }
pub proof fn lemma_vary_fold(x: Vy, n: int)
    requires forall|i: int| 0 <= i < x.0.len() ==> listed(#[trigger] x.0[i]), 0 <= n <= x.0.len(),
    ensures fold(vary_texts(x), n, Some((seq![], false)), vary_step()) == Some((x.0.subrange(0, n), false)),
    decreases n,
{
    if n > 0 {
        lemma_vary_fold(x, n - 1);
        let t = x.0[n - 1];
        assert(listed(t) && vary_texts(x)[n - 1] == t);
        lemma_trim_id(t);
        assert(x.0.subrange(0, n) =~= x.0.subrange(0, n - 1).push(t));
    } else { assert(x.0.subrange(0, 0) =~= seq![]); }
}
pub proof fn lemma_vary_reads(x: Vy)
    requires forall|i: int| 0 <= i < x.0.len() ==> listed(#[trigger] x.0[i]),
    ensures vary(seq![joined(vary_texts(x))]) == Some(x),
{
    broadcast use axiom_white;
    let ts = vary_texts(x);
    let f = vary_step();
    let z: Option<Vy> = Some((seq![], false));
    reveal_strlit("*");
    lemma_first_is("*"@, is_char(','), 1);
    assert forall|i: int| 0 <= i < ts.len() implies first(#[trigger] ts[i], is_char(',')) == ts[i].len() && tight(ts[i]) by { if i < x.0.len() { assert(listed(x.0[i])); } }
    assert forall|i: int, a: Option<Vy>| 0 <= i < ts.len() implies #[trigger] f(a, " "@ + ts[i]) == f(a, ts[i]) by { lemma_trim_id(ts[i]); lemma_trim_space(ts[i]); }
    assert forall|a: Option<Vy>| #[trigger] f(a, seq![]) == a by { assert(trim(seq![]) =~= seq![]); }
    lemma_list_reads(ts, z, f);
    lemma_joined_tight(ts);
    lemma_vary_fold(x, x.0.len() as int);
    assert(x.0.subrange(0, x.0.len() as int) =~= x.0);
    if x.1 { lemma_trim_id("*"@); assert(f(Some((x.0, false)), ts[x.0.len() as int]) == Some((x.0, true))); }
    let t = joined(ts);
    assert(fold(seq![t], 1, z, tline(f)) == tline(f)(fold(seq![t], 0, z, tline(f)), t));
}
}
fn main() {}
