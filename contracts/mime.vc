//@ # P07: parsing a media type follows the WHATWG algorithm, step by step.
use std::borrow::Cow;
use std::str::Chars;
use vstd::std_specs::iter::IteratorSpec;
//@ include head.inc
//@ include header_types.inc
//@ include str_shims.inc
//@ item src/mime/mod.rs struct ParamName
//@ item src/mime/mod.rs struct ParamValue
//@ item src/mime/mod.rs struct Mime

#[verifier::external_body]
pub fn chars_str<'a>(c: &Chars<'a>) -> (r: &'a str) ensures r@ == c.remaining() { c.as_str() }
// TRUSTED: String -> Cow conversion keeps the text; equality derived on ParamName compares it.
#[verifier::external_body]
pub fn cow_of(s: String) -> (r: Cow<'static, str>) ensures cowv(r) == s@ { Cow::Owned(s) }
impl PartialEq for ParamName {
    #[verifier::external_body]
    fn eq(&self, o: &ParamName) -> (r: bool) { self.0 == o.0 }
}
impl PartialEqSpecImpl for ParamName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ParamName) -> bool { cowv(self.0) == cowv(o.0) }
}
#[verifier::external_body]
pub fn essence_of(a: &String, b: &String) -> (r: String) ensures r@ == a@ + seq!['/'] + b@ { format!("{}/{}", a, b) }

//@ include mime_spec.inc
pub proof fn lemma_at_one(s: Seq<char>)
    requires s.len() > 0, (s[0] as u32) < 0x80,
    ensures at(s, 1, 1), forall|k: int| #[trigger] at(s, 1, k) ==> k == 1,
{
    assert(off(s, 1) == off(s, 0) + clen(s[0]));
    assert forall|k: int| #[trigger] at(s, 1, k) implies k == 1 by { if k > 1 { lemma_off_mono(s, 1, k); } }
}

//@ fn src/mime/parse.rs is_http_token_code_point
//@ ret r
ensures r == token(c),
//@ at start
proof { let s = seq!['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~'];
    assert(s[0] == '!' && s[1] == '#' && s[2] == '$' && s[3] == '%' && s[4] == '&' && s[5] == '\'' && s[6] == '*' && s[7] == '+' && s[8] == '-' && s[9] == '.' && s[10] == '^' && s[11] == '_' && s[12] == '`' && s[13] == '|' && s[14] == '~'); }
//@ end
//@ fn src/mime/parse.rs is_http_quoted_string_token_code_point
//@ ret r
ensures r == qtoken(c),
//@ end
//@ fn src/mime/parse.rs is_http_whitespace_char
//@ ret r
ensures r == ws(c),
//@ end
//@ fn src/mime/parse.rs collect_code_point_sequence_char
//@ ret r
ensures
    r.0@ == input@.subrange(0, first(input@, is_char(delimiter))),
    r.1@ == rest(input@, first(input@, is_char(delimiter))),
//@ rewrite "input.split_at(" => "str_split_at(input, "
//@ rewrite "input.find(delimiter)" => "str_find_char(input, delimiter)"
//@ rewrite "input.len()" => "str_len(input)"
//@ at start
proof { lemma_first(input@, is_char(delimiter)); assert(at(input@, off(input@, input@.len() as int), input@.len() as int)); lemma_at_unique(input@); }
//@ end
pub proof fn lemma_at_unique(s: Seq<char>)
    ensures forall|n: int, j: int, k: int| #[trigger] at(s, n, j) && #[trigger] at(s, n, k) ==> j == k,
{
    assert forall|n: int, j: int, k: int| #[trigger] at(s, n, j) && #[trigger] at(s, n, k) implies j == k by {
        if j < k { lemma_off_mono(s, j, k); } else { lemma_off_mono(s, k, j); }
    }
}
//@ fn src/mime/parse.rs collect_code_point_sequence_slice
//@ ret r
ensures
    r.0@ == input@.subrange(0, first(input@, in_set(delimiter@))),
    r.1@ == rest(input@, first(input@, in_set(delimiter@))),
//@ rewrite "input.split_at(" => "str_split_at(input, "
//@ rewrite "input.find(delimiter)" => "str_find_any(input, delimiter)"
//@ rewrite "input.len()" => "str_len(input)"
//@ at start
proof { lemma_first(input@, in_set(delimiter@)); assert(at(input@, off(input@, input@.len() as int), input@.len() as int)); lemma_at_unique(input@); }
//@ end
//@ fn src/mime/parse.rs collect_http_quoted_string
//@ ret r
requires input@.len() > 0, input@[0] == '"',
ensures
    r.0@ == quoted(rest(input@, 1)).0,
    r.1@ == quoted(rest(input@, 1)).1,
//@ rewrite "&input[1..]" => "str_from(input, 1)"
//@ rewrite "chars.as_str()" => "chars_str(&chars)"
//@ rewrite " as &[char])" => ")"
//@ at start
let ghost s0 = input@;
proof { lemma_at_one(input@); }
//@ loop 0
invariant_except_break
    quoted(rest(s0, 1)).0 == value@ + quoted(input@).0,
    quoted(rest(s0, 1)).1 == quoted(input@).1,
ensures
    quoted(rest(s0, 1)).0 == value@,
    quoted(rest(s0, 1)).1 == input@,
decreases input@.len(),
//@ at loop 0 start
let ghost i0 = input@;
let ghost v0 = value@;
proof {
    let d = seq!['"', '\\'];
    let p = in_set(d);
    lemma_first(input@, p);
    assert(d[0] == '"' && d[1] == '\\');
    lemma_quoted(input@, first(input@, p));
    let k = first(i0, p);
    let t = rest(i0, k);
    if k < i0.len() {
        assert(t[0] == i0[k]);
        if t.len() > 1 { assert(rest(rest(t, 1), 1) =~= rest(t, 2)); }
        else { assert(rest(t, 1) =~= seq![]); }
    } else { assert(t =~= seq![]); }
}
//@ at loop 0 end
proof {
    let k = first(i0, in_set(seq!['"', '\\']));
    let t = rest(i0, k);
    assert(v0 + (i0.subrange(0, k) + (seq![t[1]] + quoted(rest(t, 2)).0)) =~= (v0 + i0.subrange(0, k)).push(t[1]) + quoted(rest(t, 2)).0);
}
//@ end
//@ fn src/mime/mod.rs ParamName::as_str
//@ ret r
ensures r@ == cowv(self.0),
//@ at start
broadcast use axiom_cow_str;
//@ end
pub proof fn lemma_charset()
    ensures tokens("charset"@), qtokens("utf-8"@),
{
    reveal_strlit("charset"); reveal_strlit("utf-8");
}
pub proof fn lemma_ps_push(l: Seq<(ParamName, ParamValue)>, x: (ParamName, ParamValue), u: bool)
    ensures ps_of(l.push(x), u) == (Ps { list: ps_of(l, u).list.push((cowv(x.0.0), cowv(x.1.0))), utf8: u }),
{
    assert(ps_of(l.push(x), u).list =~= ps_of(l, u).list.push((cowv(x.0.0), cowv(x.1.0))));
}
//@ fn src/mime/parse.rs parse
//@ ret r
ensures
    r is Ok <==> well_formed(input@),
    r matches Ok(m) ==> denotes(input@, m),
//@ rewrite "input.trim_matches(is_http_whitespace_char)" => "str_trim_by(input, is_http_whitespace_char, Ghost(ws_p()))"
//@ rewrite "&input[1..]" => "str_from(input, 1)"
//@ rewrite "subtype.trim_end_matches(is_http_whitespace_char)" => "str_trim_end_by(subtype, is_http_whitespace_char, Ghost(ws_p()))"
//@ rewrite "input.trim_start_matches(is_http_whitespace_char)" => "str_trim_start_by(input, is_http_whitespace_char, Ghost(ws_p()))"
//@ rewrite "parameter_value.trim_end_matches(is_http_whitespace_char)" => "str_trim_end_by(parameter_value, is_http_whitespace_char, Ghost(ws_p()))"
//@ rewrite " as &[char])" => ")"
//@ rewrite "input.starts_with('" => "str_starts_with_char(input, '"
//@ rewrite "parameter_name.into()" => "cow_of(parameter_name)"
//@ rewrite "parameter_value.into()" => "cow_of(parameter_value)"
//@ rewrite "basetype.into()" => "cow_of(basetype)"
//@ rewrite "subtype.into()" => "cow_of(subtype)"
//@ rewrite "format!(\"{}/{}\", &basetype, &subtype)" => "essence_of(&basetype, &subtype)"
//@ closure 0 types="&(ParamName, ParamValue)" ret="y: bool"
ensures y == (cowv(arg0.0.0) == "charset"@),
//@ closure 1 types="&(ParamName, ParamValue)" ret="y: bool"
ensures y == (cowv(arg0.0.0) == cowv(name.0)),
//@ at start
broadcast use axiom_str_ext;
proof { axiom_string_eq(); reveal_strlit("charset"); reveal_strlit("utf-8");  }
//@ at stmt 1
let ghost t = input@;
proof { lemma_first(t, slash()); }
//@ at stmt 5
proof {
    if input@.len() > 0 { lemma_at_one(input@); }
    assert(rest(rest(t, first(t, slash())), 1) =~= rest(t, first(t, slash()) + 1));
}
//@ at stmt 6
let ghost u = input@;
proof { lemma_first(u, semi()); }
//@ at loop 0 before
let ghost s11 = input@;
proof { assert(ps_of(params@, is_utf8).list =~= seq![]); }
//@ at loop 0 start
let ghost i0 = input@;
let ghost p0 = ps_of(params@, is_utf8);
let ghost params0 = params@;
let ghost is_utf8_0 = is_utf8;
proof {
    lemma_at_one(input@);
    let a = trimmed_start(rest(i0, 1), ws_p());
    let k = first(a, name_end());
    lemma_trims(rest(i0, 1), ws_p());
    lemma_first(a, name_end());
    let d = seq![';', '='];
    assert(d[0] == ';' && d[1] == '=');
    let b = rest(a, k);
    if b.len() > 0 {
        assert(b[0] == a[k]);
        lemma_at_one(b);
        let c = rest(b, 1);
        lemma_first(c, semi());
        assert(rest(c, first(c, semi())).len() > 0 ==> rest(c, first(c, semi()))[0] == c[first(c, semi())]);
        if c.len() > 0 {
            let q = quoted(rest(c, 1));
            lemma_quoted_len(rest(c, 1));
            lemma_first(q.1, semi());
            assert(rest(q.1, first(q.1, semi())).len() > 0 ==> rest(q.1, first(q.1, semi()))[0] == q.1[first(q.1, semi())]);
        }
    }
}
//@ at before-call any#0
let ghost pn = parameter_name@;
let ghost pv = parameter_value@;
let it0 = params.iter();
let ghost rem = it0.remaining();
proof {
    lemma_charset();
    axiom_string_eq();
    assert forall|i: int| 0 <= i < params0.len() implies *#[trigger] rem[i] == params0[i] && cowv(rem[i].0.0) == p0.list[i].0 by {}
}
//@ at after-call any#0
proof {
    if has_charset && !is_utf8_0 {
        let i = choose|i: int| 0 <= i < rem.len() && cowv((#[trigger] rem[i]).0.0) == "charset"@;
        assert(p0.list[i].0 == "charset"@);
    }
    if known(p0, "charset"@) && !is_utf8_0 {
        let i = choose|i: int| 0 <= i < p0.list.len() && (#[trigger] p0.list[i]).0 == "charset"@;
        assert(cowv(rem[i].0.0) == "charset"@);
    }
}
assert(has_charset == known(p0, "charset"@));
//@ at before-call push#0
proof { lemma_ps_push(params@, (name, value), is_utf8); }
//@ at loop 0 end
proof {
    assert(known(p0, pn) && pn != "charset"@ ==> exists|i: int| 0 <= i < rem.len() && cowv((#[trigger] rem[i]).0.0) == pn) by {
        if known(p0, pn) && pn != "charset"@ {
            let i = choose|i: int| 0 <= i < p0.list.len() && (#[trigger] p0.list[i]).0 == pn;
            assert(cowv(rem[i].0.0) == pn);
        }
    }
    assert forall|i: int| 0 <= i < rem.len() && cowv((#[trigger] rem[i]).0.0) == pn implies known(p0, pn) by { assert(p0.list[i].0 == pn); }
    assert(has_charset == known(p0, "charset"@));
    assert(ps_of(params@, is_utf8) == add(p0, pn, pv));
}
//@ loop 0
invariant
    input@.len() > 0 ==> input@[0] == ';',
    parameters(input@, ps_of(params@, is_utf8)) == parameters(s11, Ps { list: seq![], utf8: false }),
ensures input@.len() == 0,
decreases input@.len(),
//@ end

// --- parameter lookup and the subset relation
pub open spec fn lookup(p: Ps, n: Seq<char>) -> Option<Seq<char>> {
    if n == "charset"@ && p.utf8 { Some("utf-8"@) } else { find_in(p.list, n) }
}
pub open spec fn find_in(l: Seq<(Seq<char>, Seq<char>)>, n: Seq<char>) -> Option<Seq<char>> decreases l.len() {
    if l.len() == 0 { None } else if l[0].0 == n { Some(l[0].1) } else { find_in(l.drop_first(), n) }
}
pub open spec fn mime_ps(m: Mime) -> Ps { ps_of(m.params@, m.is_utf8) }
pub open spec fn val(v: Option<&ParamValue>) -> Option<Seq<char>> { match v { Some(x) => Some(cowv(x.0)), None => None } }
pub proof fn lemma_find_in(l: Seq<(Seq<char>, Seq<char>)>, n: Seq<char>, k: int)
    requires 0 <= k <= l.len(), forall|i: int| 0 <= i < k ==> (#[trigger] l[i]).0 != n, k < l.len() ==> l[k].0 == n,
    ensures find_in(l, n) == (if k < l.len() { Some(l[k].1) } else { None::<Seq<char>> }),
    decreases k,
{
    if k > 0 {
        assert(l[0].0 != n);
        assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] l.drop_first()[i]).0 != n by { assert(l[i + 1].0 != n); }
        lemma_find_in(l.drop_first(), n, k - 1);
    }
}
impl PartialEq for ParamValue {
    #[verifier::external_body]
    fn eq(&self, o: &ParamValue) -> (r: bool) { self.0 == o.0 }
}
impl PartialEqSpecImpl for ParamValue {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ParamValue) -> bool { cowv(self.0) == cowv(o.0) }
}
// TRUSTED: comparing a Cow<str> with a str compares the texts.
#[verifier::external_body]
pub fn cow_is(c: &Cow<'static, str>, s: &str) -> (r: bool) ensures r == (cowv(*c) == s@) { *c == *s }
impl ParamValue {
//@ fn src/mime/mod.rs <ParamValue as PartialEq<&'a str>>::eq
//@ bare
//@ rename eq_ref
//@ ret r
ensures r == (cowv(self.0) == other@),
//@ rewrite "&&'a str" => "&&str"
//@ rewrite "&self.0 == other" => "cow_is(&self.0, *other)"
//@ end
//@ fn src/mime/mod.rs <ParamValue as PartialEq<str>>::eq
//@ bare
//@ rename eq_str
//@ ret r
ensures r == (cowv(self.0) == other@),
//@ rewrite "self.0 == other" => "cow_is(&self.0, other)"
//@ end
}
// an ASCII name, lower-cased
//@ fn src/mime/mod.rs <ParamName as FromStr>::from_str
//@ bare
//@ rename param_name_from_str
//@ ret r
ensures
    r is Ok == vstd::string::is_ascii(s),
    r is Ok ==> cowv(r->Ok_0.0) == lower(s@),
//@ rewrite "Result<Self, Self::Err>" => "Result<ParamName, Error>"
//@ end
impl ParamName {
//@ fn src/mime/mod.rs <ParamName as From<&'a str>>::from
//@ bare
//@ rename from_text
//@ ret r
requires vstd::string::is_ascii(value),
ensures cowv(r.0) == lower(value@),
//@ rewrite "&'a str" => "&str"
//@ rewrite "Self::from_str(value).unwrap()" => "param_name_from_str(value).ok().unwrap()"
//@ end
}
#[verifier::external_body]
pub fn clone_param_name(s: &ParamName) -> (r: ParamName) ensures cowv(r.0) == cowv(s.0) { unimplemented!() }
pub open spec fn is_first(l: Seq<(ParamName, ParamValue)>, n: Seq<char>, k: int) -> bool {
    0 <= k <= l.len() && (forall|i: int| 0 <= i < k ==> cowv((#[trigger] l[i]).0.0) != n) && (k < l.len() ==> cowv(l[k].0.0) == n)
}
// TRUSTED: Iterator::find over a slice returns the first element satisfying the predicate.
#[verifier::external_body]
pub fn find_param<'a, F: Fn(&(ParamName, ParamValue)) -> bool>(l: &'a Vec<(ParamName, ParamValue)>, Ghost(n): Ghost<Seq<char>>, f: F) -> (r: Option<&'a (ParamName, ParamValue)>)
    requires
        forall|x: &(ParamName, ParamValue)| f.requires((x,)),
        forall|x: &(ParamName, ParamValue), y: bool| f.ensures((x,), y) ==> y == (cowv(x.0.0) == n),
    ensures match r {
        Some(x) => exists|k: int| #[trigger] is_first(l@, n, k) && k < l@.len() && *x == l@[k],
        None => is_first(l@, n, l@.len() as int),
    },
{ l.iter().find(|x| f(*x)) }
//@ fn src/mime/mod.rs Mime::basetype
//@ ret r
ensures r@ == cowv(self.basetype),
//@ at start
broadcast use axiom_cow_str;
//@ end
//@ fn src/mime/mod.rs Mime::subtype
//@ ret r
ensures r@ == cowv(self.subtype),
//@ at start
broadcast use axiom_cow_str;
//@ end
//@ fn src/mime/mod.rs Mime::essence
//@ ret r
ensures r@ == cowv(self.essence),
//@ at start
broadcast use axiom_cow_str;
//@ end
//@ fn src/mime/mod.rs Mime::param
//@ ret r
ensures val(r) == lookup(mime_ps(*self), cowv(name.0)),
//@ rewrite "name: impl Into<ParamName>" => "name: ParamName"
//@ rewrite "name.into()" => "name"
//@ rewrite "self.params.iter().find(" => "find_param(&self.params, Ghost(cowv(name.0)), "
//@ closure 0 types="&(ParamName, ParamValue)" ret="y: bool"
ensures y == (cowv(arg0.0.0) == cowv(name.0)),
//@ closure 1 types="&(ParamName, ParamValue)" ret="y: &ParamValue"
ensures *y == arg0.1,
//@ at start
broadcast use axiom_str_ext;
proof {
    reveal_strlit("charset"); reveal_strlit("utf-8");
    let l = mime_ps(*self).list;
    let n = cowv(name.0);
    assert forall|k: int| #[trigger] is_first(self.params@, n, k)
        implies find_in(l, n) == (if k < l.len() { Some(cowv(self.params@[k].1.0)) } else { None::<Seq<char>> }) by {
        assert forall|i: int| 0 <= i < k implies (#[trigger] l[i]).0 != n by { assert(cowv(self.params@[i].0.0) != n); }
        lemma_find_in(l, n, k);
    }
}
//@ end
pub open spec fn within(a: Mime, b: Mime) -> bool {
    &&& cowv(b.basetype) == "*"@ || cowv(a.basetype) == cowv(b.basetype)
    &&& cowv(b.subtype) == "*"@ || cowv(a.subtype) == cowv(b.subtype)
    &&& b.is_utf8 ==> lookup(mime_ps(a), "charset"@) == Some("utf-8"@)
    &&& forall|i: int| 0 <= i < b.params@.len() ==> lookup(mime_ps(a), cowv((#[trigger] b.params@[i]).0.0)) == Some(cowv(b.params@[i].1.0))
}
//@ fn src/mime/mod.rs Mime::subset_eq
//@ ret r
ensures r == within(*self, *other),
//@ rewrite "self.param(\"charset\")" => "self.param(ParamName::from_text(\"charset\"))"
//@ rewrite "if v == \"utf-8\"" => "if v.eq_str(\"utf-8\")"
//@ rewrite "name.clone()" => "clone_param_name(name)"
//@ closure 0 types="&ParamValue" ret="y: bool"
ensures y == (cowv(v.0) == cowv(value.0)),
//@ at start
broadcast use axiom_str_ext;
proof { reveal_strlit("charset"); reveal_strlit("utf-8"); reveal_strlit("*"); assert(lower("charset"@) =~= "charset"@); }
//@ loop 0 it=it
invariant
    forall|i: int| 0 <= i < it.index@ ==> lookup(mime_ps(*self), cowv((#[trigger] other.params@[i]).0.0)) == Some(cowv(other.params@[i].1.0)),
//@ end

// --- removal: the first parameter of that name goes, everything else stays
pub open spec fn dropped(l: Seq<(Seq<char>, Seq<char>)>, n: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> decreases l.len() {
    if l.len() == 0 { l } else if l[0].0 == n { l.drop_first() } else { seq![l[0]] + dropped(l.drop_first(), n) }
}
pub proof fn lemma_dropped(l: Seq<(Seq<char>, Seq<char>)>, n: Seq<char>, k: int)
    requires 0 <= k <= l.len(), forall|i: int| 0 <= i < k ==> (#[trigger] l[i]).0 != n, k < l.len() ==> l[k].0 == n,
    ensures dropped(l, n) == (if k < l.len() { l.remove(k) } else { l }),
    decreases k,
{
    if k > 0 {
        assert(l[0].0 != n);
        let t = l.drop_first();
        assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] t[i]).0 != n by { assert(l[i + 1].0 != n); }
        lemma_dropped(t, n, k - 1);
        if k < l.len() { assert(seq![l[0]] + t.remove(k - 1) =~= l.remove(k)); } else { assert(seq![l[0]] + t =~= l); }
    } else if l.len() > 0 { assert(l.drop_first() =~= l.remove(0)); }
}
// looking up any other name afterwards gives what it gave before; the removed name is gone unless it was there twice
pub proof fn lemma_dropped_others(l: Seq<(Seq<char>, Seq<char>)>, n: Seq<char>, m: Seq<char>)
    requires m != n,
    ensures find_in(dropped(l, n), m) == find_in(l, m),
    decreases l.len(),
{
    if l.len() > 0 && l[0].0 != n {
        lemma_dropped_others(l.drop_first(), n, m);
        let d = seq![l[0]] + dropped(l.drop_first(), n);
        assert(d.drop_first() =~= dropped(l.drop_first(), n));
    }
}
// TRUSTED: Iterator::position over a slice gives the index of the first element satisfying the predicate.
#[verifier::external_body]
pub fn position_param<F: Fn(&(ParamName, ParamValue)) -> bool>(l: &Vec<(ParamName, ParamValue)>, Ghost(n): Ghost<Seq<char>>, f: F) -> (r: Option<usize>)
    requires
        forall|x: &(ParamName, ParamValue)| f.requires((x,)),
        forall|x: &(ParamName, ParamValue), y: bool| f.ensures((x,), y) ==> y == (cowv(x.0.0) == n),
    ensures match r {
        Some(k) => is_first(l@, n, k as int) && k < l@.len(),
        None => is_first(l@, n, l@.len() as int),
    },
{ l.iter().position(|x| f(x)) }
pub open spec fn own(v: Option<ParamValue>) -> Option<Seq<char>> { match v { Some(x) => Some(cowv(x.0)), None => None } }
//@ fn src/mime/mod.rs Mime::remove_param
//@ ret r
ensures
    own(r) == lookup(mime_ps(*old(self)), cowv(name.0)),
    mime_ps(*final(self)) == (if cowv(name.0) == "charset"@ && old(self).is_utf8 { Ps { utf8: false, ..mime_ps(*old(self)) } }
        else { Ps { list: dropped(mime_ps(*old(self)).list, cowv(name.0)), ..mime_ps(*old(self)) } }),
    final(self).essence == old(self).essence, final(self).basetype == old(self).basetype, final(self).subtype == old(self).subtype,
//@ rewrite "name: impl Into<ParamName>" => "name: ParamName"
//@ rewrite "name.into()" => "name"
//@ rewrite "self.params\n            .iter()\n            .position(" => "match position_param(&self.params, Ghost(cowv(name.0)), "
//@ rewrite ".map(|pos| " => " { None => None, Some(pos) => Some("
//@ rewrite ".1)" => ".1) }"
//@ closure 0 types="&(ParamName, ParamValue)" ret="y: bool"
ensures y == (cowv(arg0.0.0) == cowv(name.0)),
//@ at start
broadcast use axiom_str_ext;
proof {
    reveal_strlit("charset"); reveal_strlit("utf-8");
    let ps = self.params@;
    let l = mime_ps(*self).list;
    let n = cowv(name.0);
    assert forall|k: int| #[trigger] is_first(ps, n, k)
        implies find_in(l, n) == (if k < l.len() { Some(cowv(ps[k].1.0)) } else { None::<Seq<char>> })
            && dropped(l, n) == (if k < l.len() { l.remove(k) } else { l })
            && (k < l.len() ==> ps_of(ps.remove(k), self.is_utf8).list =~= l.remove(k)) by {
        assert forall|i: int| 0 <= i < k implies (#[trigger] l[i]).0 != n by { assert(cowv(ps[i].0.0) != n); }
        lemma_find_in(l, n, k);
        lemma_dropped(l, n, k);
    }
}
//@ end
// --- names and values of parameters
//@ fn src/mime/mod.rs ParamValue::as_str
//@ ret r
ensures r@ == cowv(self.0),
//@ at start
broadcast use axiom_cow_str;
//@ end
}
fn main() {}
