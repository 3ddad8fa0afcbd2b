//@ # P10: entity tags and the If-Match / If-None-Match lists.
use std::borrow::Cow;
use std::collections::{hash_map, HashMap};
//@ include head.inc
//@ include header_types.inc
//@ item src/headers/header_name.rs struct HeaderName #[derive(PartialEq, Eq, Hash, Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ item src/headers/header_value.rs struct HeaderValue
//@ item src/headers/header_values.rs struct HeaderValues
//@ item src/headers/headers.rs struct Headers
//@ fn src/headers/header_value.rs HeaderValue::as_str
//@ ret r
ensures r@ == self.inner@,
//@ end
//@ fn src/headers/header_value.rs HeaderValue::from_bytes_unchecked
//@ ret r
requires ascii_bytes(bytes@),
ensures r.inner@ == chars_of(bytes@),
//@ end
//@ include str_shims.inc
//@ include lists.inc
//@ include parts.inc
//@ include join.inc
//@ include fmt.inc
//@ item src/conditional/etag.rs enum ETag
#[verifier::external_body]
pub fn str_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r {
        Some(t) => p@.is_prefix_of(s@) && t@ == s@.subrange(p@.len() as int, s@.len() as int),
        None => !p@.is_prefix_of(s@),
    },
{ s.strip_prefix(p) }
#[verifier::external_body]
pub fn str_strip_suffix_char<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    ensures match r {
        Some(t) => s@.len() > 0 && s@.last() == c && t@ == s@.drop_last(),
        None => s@.len() == 0 || s@.last() != c,
    },
{ s.strip_suffix(c) }
// TRUSTED: UTF-8 encodes a non-ASCII character as bytes >= 0x80, an ASCII one as itself.
#[verifier::external_body]
pub fn bytes_all<F: Fn(u8) -> bool>(s: &str, Ghost(p): Ghost<spec_fn(u8) -> bool>, f: F) -> (r: bool)
    requires
        forall|b: u8| f.requires((b,)), forall|b: u8, r: bool| f.ensures((b,), r) ==> r == p(b),
        forall|b: u8| b >= 0x80 ==> #[trigger] p(b),
    ensures r == forall|i: int| 0 <= i < s@.len() && (#[trigger] s@[i] as u32) < 0x80 ==> p(s@[i] as u8),
{ s.bytes().all(f) }
#[verifier::external_body]
pub fn vec_last<'a, T>(v: &'a Vec<T>) -> (r: Option<&'a T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 },
{ v.iter().last() }
// RFC 7232: etagc = %x21 / %x23-7E / obs-text (here: any character outside ASCII)
pub open spec fn etagc(c: char) -> bool { c as u32 == 0x21 || 0x23 <= c as u32 <= 0x7e || c as u32 >= 0x80 }
pub open spec fn opaque(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> etagc(#[trigger] s[i]) }
// a tag as a value: whether it is weak, and its text
pub open spec fn tagv(t: ETag) -> (bool, Seq<char>) { match t { ETag::Strong(s) => (false, s@), ETag::Weak(s) => (true, s@) } }
pub open spec fn quoted(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() >= 2 && s[0] == '"' && s.last() == '"' && opaque(s.subrange(1, s.len() - 1)) { Some(s.subrange(1, s.len() - 1)) } else { None }
}
pub open spec fn weak_mark(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == 'W' && s[1] == '/' }
pub open spec fn tag(s: Seq<char>) -> Option<(bool, Seq<char>)> {
    if weak_mark(s) { match quoted(s.subrange(2, s.len() as int)) { Some(t) => Some((true, t)), None => None } }
    else { match quoted(s) { Some(t) => Some((false, t)), None => None } }
}
pub open spec fn tag_text(t: (bool, Seq<char>)) -> Seq<char> {
    if t.0 { seq!['W', '/', '"'] + t.1 + seq!['"'] } else { seq!['"'] + t.1 + seq!['"'] }
}
impl Show for ETag { open spec fn shown(&self) -> Seq<char> { tag_text(tagv(*self)) } }
pub proof fn lemma_tag_text(t: (bool, Seq<char>))
    requires opaque(t.1),
    ensures tag(tag_text(t)) == Some(t),
{
    let s = tag_text(t);
    if t.0 {
        let u = s.subrange(2, s.len() as int);
        assert(u =~= seq!['"'] + t.1 + seq!['"']);
        assert(u.subrange(1, u.len() - 1) =~= t.1);
    } else { assert(s.subrange(1, s.len() - 1) =~= t.1); }
}
//@ fn src/conditional/etag.rs ETag::new
//@ ret r
ensures tagv(r) == (false, s@),
//@ rewrite "debug_assert!(!s.contains('\\'), \"ETags ought to avoid backslash chars\");" => ""
//@ end
//@ fn src/conditional/etag.rs ETag::new_weak
//@ ret r
ensures tagv(r) == (true, s@),
//@ rewrite "debug_assert!(!s.contains('\\'), \"ETags ought to avoid backslash chars\");" => ""
//@ end
//@ fn src/conditional/etag.rs ETag::is_strong
//@ ret r
ensures r == !tagv(*self).0,
//@ end
//@ fn src/conditional/etag.rs ETag::is_weak
//@ ret r
ensures r == tagv(*self).0,
//@ end
//@ fn src/conditional/etag.rs ETag::from_str
//@ ret r
ensures
    match tag(s@) {
        Some(t) => r is Ok && tagv(r->Ok_0) == t,
        None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
    },
//@ rewrite "s.strip_prefix(\"W/\")" => "str_strip_prefix(s, \"W/\")"
//@ rewrite "s.strip_prefix('\"')" => "str_strip_prefix_char(s, '\"')"
//@ rewrite ".and_then(|s| s.strip_suffix('\"'))" => ".and_then(|s: &'a str| -> (y: Option<&'a str>) ensures match y { Some(t) => s@.len() > 0 && s@.last() == '\"' && t@ == s@.drop_last(), None => s@.len() == 0 || s@.last() != '\"' } { str_strip_suffix_char(s, '\"') })"
//@ rewrite "from_str(s: &str)" => "from_str<'a>(s: &'a str)"
//@ rewrite "!s\n            .bytes()\n            .all(" => "!bytes_all(s.as_str(), Ghost(|b: u8| etagc(b as char)), "
//@ rewrite "(0x23..=0x7E).contains(&c)" => "(0x23 <= c && c <= 0x7E)"
//@ closure 1 types="u8" ret="y: bool"
ensures y == etagc(c as char),
//@ at start
let ghost s0 = s@;
proof {
    reveal_strlit("W/");
    if weak_mark(s@) { assert("W/"@ =~= s@.subrange(0, 2)); }
    if "W/"@.is_prefix_of(s@) { assert(s@.subrange(0, 2)[0] == s@[0] && s@.subrange(0, 2)[1] == s@[1]); }
}
//@ at stmt 3
proof {
    let u = if weak_mark(s0) { s0.subrange(2, s0.len() as int) } else { s0 };
    assert(u.subrange(1, u.len() as int).drop_last() =~= u.subrange(1, u.len() - 1));
    assert(forall|i: int| 0 <= i < s@.len() && (s@[i] as u32) < 0x80 ==> (s@[i] as u8) as char == s@[i]);
}
//@ end
//@ fn src/conditional/etag.rs ETag::from_headers
//@ ret r
ensures
    match header_values(headers, "etag"@) {
        None => r == Ok::<Option<ETag>, Error>(None),
        Some(vs) => match tag(vs.last().inner@) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(t) => r is Ok && r->Ok_0 is Some && tagv(r->Ok_0->0) == t,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(ETAG)" => "header_get(headers, \"etag\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ rewrite ".map(Some)" => ".map(|x: ETag| -> (y: Option<ETag>) ensures y == Some(x) { Some(x) })"
//@ end
impl ETag {
//@ fn src/conditional/etag.rs <ETag as Display>::fmt
//@ bare
//@ ret r
ensures r is Ok, final(f).text() =~= old(f).text() + self.shown(),
//@ fmt
//@ at start
proof { reveal_strlit("\""); reveal_strlit("W/\""); }
//@ end
}
impl ETag {
//@ fn src/conditional/etag.rs <ETag as Header>::header_value
//@ bare
//@ ret r
requires ascii_chars(tagv(*self).1),
ensures r.inner@ == self.shown(),
//@ rewrite "self.to_string()" => "vx_to_string(self)"
//@ rewrite "s.into()" => "s.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
//@ end
}
// A list of tags: commas inside a quoted tag do not separate.
pub open spec fn flip(c: char, q: bool) -> bool { if c == '"' { !q } else { q } }
pub open spec fn cut(s: Seq<char>, q: bool) -> int decreases s.len() {
    if s.len() == 0 || (s[0] == ',' && !q) { 0 } else { 1 + cut(s.drop_first(), flip(s[0], q)) }
}
pub open spec fn par(s: Seq<char>, q: bool) -> bool decreases s.len() { if s.len() == 0 { q } else { par(s.drop_first(), flip(s[0], q)) } }
pub open spec fn tag_splits(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    let k = cut(s, false);
    if 0 <= k < s.len() { seq![s.subrange(0, k)] + tag_splits(s.subrange(k + 1, s.len() as int)) } else { seq![s] }
}
pub proof fn lemma_cut(s: Seq<char>, q: bool)
    ensures 0 <= cut(s, q) <= s.len(), cut(s, q) < s.len() ==> s[cut(s, q)] == ',' && !par(s.subrange(0, cut(s, q)), q),
    decreases s.len(),
{
    if s.len() > 0 && !(s[0] == ',' && !q) {
        let t = s.drop_first();
        lemma_cut(t, flip(s[0], q));
        let k = cut(s, q);
        assert(s.subrange(0, k).drop_first() =~= t.subrange(0, k - 1));
    }
}
pub proof fn lemma_cut_append(a: Seq<char>, b: Seq<char>, q: bool)
    ensures
        cut(a + b, q) == if cut(a, q) < a.len() { cut(a, q) } else { a.len() + cut(b, par(a, q)) },
        par(a + b, q) == par(b, par(a, q)),
    decreases a.len(),
{
    lemma_cut(a, q);
    if a.len() == 0 { assert(a + b =~= b); } else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        lemma_cut_append(a.drop_first(), b, flip(a[0], q));
        lemma_cut(a.drop_first(), flip(a[0], q));
    }
}
pub proof fn lemma_tag_splits_append(a: Seq<char>, y: Seq<char>)
    requires !par(a, false),
    ensures tag_splits(a + seq![','] + y) == tag_splits(a) + tag_splits(y),
    decreases a.len(),
{
    let t = a + seq![','] + y;
    let k = cut(a, false);
    lemma_cut(a, false);
    assert(t =~= a + (seq![','] + y));
    lemma_cut_append(a, seq![','] + y, false);
    if k < a.len() {
        let h = a.subrange(0, k);
        let r = a.subrange(k + 1, a.len() as int);
        assert(a =~= h + (seq![','] + r));
        lemma_cut_append(h, seq![','] + r, false);
        assert((seq![','] + r).drop_first() =~= r);
        assert(!par(r, false));
        lemma_tag_splits_append(r, y);
        assert(t.subrange(0, k) =~= h);
        assert(t.subrange(k + 1, t.len() as int) =~= r + seq![','] + y);
        assert(tag_splits(t) =~= seq![h] + (tag_splits(r) + tag_splits(y)));
    } else {
        assert(cut(seq![','] + y, false) == 0);
        assert(t.subrange(0, a.len() as int) =~= a);
        assert(t.subrange(a.len() as int + 1, t.len() as int) =~= y);
    }
}
pub proof fn lemma_body(s: Seq<char>)
    requires opaque(s),
    ensures cut(s, true) == s.len(), par(s, true),
    decreases s.len(),
{ if s.len() > 0 { assert(etagc(s[0])); assert(opaque(s.drop_first())); lemma_body(s.drop_first()); } }
pub proof fn lemma_shown(t: (bool, Seq<char>))
    requires opaque(t.1),
    ensures cut(tag_text(t), false) == tag_text(t).len(), !par(tag_text(t), false), !white(tag_text(t)[0]), !white(tag_text(t).last()),
{
    broadcast use axiom_white;
    lemma_body(t.1);
    let q = seq!['"'];
    assert(q.drop_first() =~= seq![]);
    assert(cut(q, true) == 1 && !par(q, true)) by { reveal_with_fuel(cut, 2); reveal_with_fuel(par, 2); }
    lemma_cut_append(t.1, q, true);
    let h = if t.0 { seq!['W', '/', '"'] } else { seq!['"'] };
    assert(cut(h, false) == h.len() && par(h, false)) by {
        reveal_with_fuel(cut, 4); reveal_with_fuel(par, 4);
        if t.0 { assert(h.drop_first() =~= seq!['/', '"']); assert(h.drop_first().drop_first() =~= seq!['"']); }
        assert(q.drop_first() =~= seq![]);
    }
    lemma_cut_append(h, t.1 + q, false);
    assert(tag_text(t) =~= h + (t.1 + q));
}
pub proof fn lemma_one(s: Seq<char>) requires cut(s, false) == s.len() ensures tag_splits(s) == seq![s] {}
pub type Tags = (bool, Seq<(bool, Seq<char>)>);
pub open spec fn tag_step() -> spec_fn(Option<Tags>, Seq<char>) -> Option<Tags> {
    |acc: Option<Tags>, s: Seq<char>| match acc {
        None => None,
        Some(x) => { let t = trim(s);
            if t.len() == 0 { acc } else if t == "*"@ { Some((true, x.1)) }
            else { match tag(t) { None => None, Some(e) => Some((x.0, x.1.push(e))) } } },
    }
}
pub open spec fn tag_line() -> spec_fn(Option<Tags>, Seq<char>) -> Option<Tags> {
    |acc: Option<Tags>, v: Seq<char>| { let ps = tag_splits(v); fold(ps, ps.len() as int, acc, tag_step()) }
}
pub open spec fn tag_list(vs: Seq<Seq<char>>) -> Option<Tags> { fold(vs, vs.len() as int, Some((false, seq![])), tag_line()) }
pub proof fn lemma_tag_strict() ensures strict(tag_step()), strict(tag_line())
{
    assert forall|v: Seq<char>| #[trigger] tag_line()(None, v) is None by { let ps = tag_splits(v); lemma_fold_none(ps, 0, ps.len() as int, None, tag_step()); }
}
pub open spec fn tags(es: Seq<ETag>) -> Seq<(bool, Seq<char>)> { es.map_values(|e: ETag| tagv(e)) }
pub open spec fn tag_texts(ts: Seq<(bool, Seq<char>)>) -> Seq<Seq<char>> { ts.map_values(|t: (bool, Seq<char>)| tag_text(t)) }
pub open spec fn list_text(x: Tags) -> Seq<char> {
    let j = joined(tag_texts(x.1));
    if !x.0 { j } else if j.len() == 0 { "*"@ } else { j + ", *"@ }
}
pub open spec fn all_opaque(ts: Seq<(bool, Seq<char>)>) -> bool { forall|i: int| 0 <= i < ts.len() ==> opaque((#[trigger] ts[i]).1) }
// what is written reads back
pub proof fn lemma_joined_reads(ts: Seq<(bool, Seq<char>)>)
    requires all_opaque(ts),
    ensures
        tag_line()(Some((false, seq![])), joined(tag_texts(ts))) == Some((false, ts)),
        !par(joined(tag_texts(ts)), false),
        (joined(tag_texts(ts)).len() == 0) == (ts.len() == 0),
    decreases ts.len(),
{
    let z: Option<Tags> = Some((false, seq![]));
    let f = tag_step();
    if ts.len() == 0 {
        assert(tag_texts(ts) =~= seq![]);
        let e: Seq<char> = seq![];
        assert(tag_splits(e) =~= seq![e]);
        assert(trim(e) == e);
        assert(fold(seq![e], 1, z, f) == f(fold(seq![e], 0, z, f), e));
        assert(ts =~= seq![]);
    } else {
        let p = ts.drop_last();
        let t = ts.last();
        let y = tag_text(t);
        lemma_joined_reads(p);
        lemma_shown(t);
        lemma_tag_text(t);
        assert(y != "*"@) by { reveal_strlit("*"); }
        assert(tag_texts(ts) =~= tag_texts(p).push(y));
        lemma_joined_push(tag_texts(p), y);
        if p.len() == 0 {
            assert(p =~= seq![]);
            lemma_one(y);
            lemma_trim_id(y);
            assert(fold(seq![y], 1, z, f) == f(fold(seq![y], 0, z, f), y));
            assert(seq![t] =~= ts);
            assert(Seq::<(bool, Seq<char>)>::empty().push(t) =~= ts);
        } else {
            let a = joined(tag_texts(p));
            let w = " "@ + y;
            reveal_strlit(", "); reveal_strlit(" ");
            assert(a + ", "@ + y =~= a + seq![','] + w);
            lemma_tag_splits_append(a, w);
            lemma_cut_append(" "@, y, false);
            assert(cut(" "@, false) == 1 && !par(" "@, false)) by { reveal_with_fuel(cut, 2); reveal_with_fuel(par, 2); assert(" "@.drop_first() =~= seq![]); }
            lemma_one(w);
            lemma_trim_space(y);
            lemma_fold_append(tag_splits(a), seq![w], z, f);
            let m = fold(tag_splits(a), tag_splits(a).len() as int, z, f);
            assert(fold(seq![w], 1, m, f) == f(fold(seq![w], 0, m, f), w));
            assert(p.push(t) =~= ts);
            assert(a + seq![','] + w =~= a + (seq![','] + w));
            lemma_cut_append(a, seq![','] + w, false);
            assert((seq![','] + w).drop_first() =~= w);
        }
    }
}
pub proof fn lemma_reads_back(x: Tags)
    requires all_opaque(x.1),
    ensures tag_list(seq![list_text(x)]) == Some(x),
{
    let z: Option<Tags> = Some((false, seq![]));
    let f = tag_step();
    let t = list_text(x);
    let a = joined(tag_texts(x.1));
    lemma_joined_reads(x.1);
    assert(fold(seq![t], 1, z, tag_line()) == tag_line()(fold(seq![t], 0, z, tag_line()), t));
    if x.0 {
        reveal_strlit(", *"); reveal_strlit("*"); reveal_strlit(" ");
        broadcast use axiom_white;
        let s = "*"@;
        lemma_trim_id(s);
        lemma_trim_space(s);
        assert(cut(s, false) == 1) by { reveal_with_fuel(cut, 2); assert(s.drop_first() =~= seq![]); }
        lemma_one(s);
        if a.len() == 0 {
            assert(x.1 =~= seq![]);
            assert(fold(seq![s], 1, z, f) == f(fold(seq![s], 0, z, f), s));
        } else {
            let w = " "@ + s;
            assert(a + ", *"@ =~= a + seq![','] + w);
            lemma_tag_splits_append(a, w);
            lemma_cut_append(" "@, s, false);
            assert(cut(" "@, false) == 1 && !par(" "@, false)) by { reveal_with_fuel(cut, 2); reveal_with_fuel(par, 2); assert(" "@.drop_first() =~= seq![]); }
            lemma_one(w);
            lemma_fold_append(tag_splits(a), seq![w], z, f);
            let m = fold(tag_splits(a), tag_splits(a).len() as int, z, f);
            assert(fold(seq![w], 1, m, f) == f(fold(seq![w], 0, m, f), w));
        }
    }
}
//@ include indices.inc
pub open spec fn vtexts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
pub open spec fn rest_of(s: Seq<char>, k: int) -> Seq<char> { s.subrange(k, s.len() as int) }
pub open spec fn listed(s: Seq<char>, v: Seq<(usize, char)>) -> bool {
    &&& v.len() == s.len() && off(s, s.len() as int) <= usize::MAX
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == off(s, i) && v[i].1 == s[i]
}
// the pieces up to character a are in `parts`; the current one runs from a, and is read up to j
pub open spec fn splitting(s: Seq<char>, parts: Seq<&str>, start: int, a: int, j: int, q: bool) -> bool {
    &&& 0 <= a <= j <= s.len() && at(s, start, a)
    &&& cut(rest_of(s, a), false) == (j - a) + cut(rest_of(s, j), q)
    &&& vtexts(parts) + tag_splits(rest_of(s, a)) == tag_splits(s)
}
pub proof fn lemma_split_start(s: Seq<char>)
    ensures splitting(s, seq![], 0, 0, 0, false),
{
    assert(rest_of(s, 0) =~= s);
    assert(vtexts(seq![]) + tag_splits(s) =~= tag_splits(s));
}
pub proof fn lemma_split_step(s: Seq<char>, parts: Seq<&str>, start: int, a: int, j: int, q: bool)
    requires splitting(s, parts, start, a, j, q), j < s.len(), off(s, s.len() as int) <= usize::MAX,
    ensures
        at(s, off(s, j), j), at(s, off(s, j + 1), j + 1), off(s, j + 1) == off(s, j) + clen(s[j]), start <= off(s, j), off(s, j + 1) <= usize::MAX,
        forall|n: int, i: int, k: int| #[trigger] at(s, n, i) && #[trigger] at(s, n, k) ==> i == k,
        s[j] == ',' && !q ==> forall|p: Seq<&str>| #[trigger] vtexts(p) == vtexts(parts).push(s.subrange(a, j)) ==> splitting(s, p, off(s, j + 1), j + 1, j + 1, false),
        !(s[j] == ',' && !q) ==> splitting(s, parts, start, a, j + 1, flip(s[j], q)),
{
    lemma_at_unique(s);
    lemma_off_mono(s, a, j);
    lemma_off_len(s, j + 1);
    assert(rest_of(s, j).drop_first() =~= rest_of(s, j + 1));
    assert(rest_of(s, j)[0] == s[j]);
    let r = rest_of(s, a);
    if s[j] == ',' && !q {
        assert(cut(r, false) == j - a);
        assert(r.subrange(0, j - a) =~= s.subrange(a, j));
        assert(r.subrange(j - a + 1, r.len() as int) =~= rest_of(s, j + 1));
        assert forall|p: Seq<&str>| #[trigger] vtexts(p) == vtexts(parts).push(s.subrange(a, j)) implies splitting(s, p, off(s, j + 1), j + 1, j + 1, false) by {
            assert(vtexts(parts) + tag_splits(r) =~= vtexts(p) + tag_splits(rest_of(s, j + 1)));
        }
    }
}
pub proof fn lemma_split_end(s: Seq<char>, parts: Seq<&str>, start: int, a: int, q: bool)
    requires splitting(s, parts, start, a, s.len() as int, q),
    ensures
        boundary(s, start), vtexts(parts).push(rest_of(s, a)) == tag_splits(s),
        forall|n: int, i: int, k: int| #[trigger] at(s, n, i) && #[trigger] at(s, n, k) ==> i == k,
{
    lemma_at_unique(s);
    let r = rest_of(s, a);
    assert(rest_of(s, s.len() as int) =~= seq![]);
    assert(cut(r, false) == r.len());
    assert(tag_splits(r) =~= seq![r]);
    assert(vtexts(parts).push(r) =~= vtexts(parts) + seq![r]);
}
// str::split with a closure is written out as its defining loop: the closure is asked once for each
// character in order, and the pieces are what lies between the characters it accepts.
//@ fn src/conditional/etag.rs ETag::split_list
//@ ret r
ensures
    vtexts(r@) == tag_splits(s@),
    r@.len() == tag_splits(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == tag_splits(s@)[i],
//@ rewrite "impl Iterator<Item = &str>" => "Vec<&str>"
//@ rewrite "s.split(move |c| {" => "{ let vx_cs = indices(s, 0); let mut vx_parts: Vec<&str> = Vec::new(); let mut vx_start: usize = 0; let mut vx_i: usize = 0; let ghost mut a = 0int; proof { lemma_split_start(s@); } while vx_i < vx_cs.len() invariant vx_i <= vx_cs@.len(), listed(s@, vx_cs@), splitting(s@, vx_parts@, vx_start as int, a, vx_i as int, quoted), decreases vx_cs.len() - vx_i { let vx_off = vx_cs[vx_i].0; let c = vx_cs[vx_i].1; let ghost was = quoted; let ghost before = vx_parts@; let vx_hit = {"
//@ rewrite "})" => "}; proof { lemma_split_step(s@, before, vx_start as int, a, vx_i as int, was); } if vx_hit { vx_parts.push(str_range(s, vx_start, vx_off)); vx_start = vx_off + c.len_utf8(); proof { assert(vtexts(vx_parts@) =~= vtexts(before).push(s@.subrange(a, vx_i as int))); a = vx_i + 1; } } vx_i += 1; } proof { lemma_split_end(s@, vx_parts@, vx_start as int, a, quoted); } let ghost before = vx_parts@; vx_parts.push(str_from(s, vx_start)); proof { assert(vtexts(vx_parts@) =~= vtexts(before).push(s@.subrange(a, s@.len() as int))); } vx_parts }"
//@ end
//@ include etag_list.inc TYPE=IfMatch FILE=src/conditional/if_match.rs CONST=IF_MATCH NAME=if-match
//@ include etag_list.inc TYPE=IfNoneMatch FILE=src/conditional/if_none_match.rs CONST=IF_NONE_MATCH NAME=if-none-match
}
fn main() {}
