//@ # P07: serialising a media type, and that parsing the result gives the media type back.
use std::borrow::Cow;
use vstd::std_specs::iter::IteratorSpec;
//@ include head.inc
//@ include header_types.inc
//@ include str_shims.inc
//@ include fmt.inc
//@ item src/mime/mod.rs struct ParamName
//@ item src/mime/mod.rs struct ParamValue
//@ item src/mime/mod.rs struct Mime
//@ item src/mime/parse.rs struct EscapeMimeValue
//@ item src/mime/parse.rs enum EscapeMimeValueState
//@ include mime_spec.inc

impl Show for Cow<'static, str> { open spec fn shown(&self) -> Seq<char> { cowv(*self) } }
impl Show for ParamName { open spec fn shown(&self) -> Seq<char> { cowv(self.0) } }
impl Show for ParamValue { open spec fn shown(&self) -> Seq<char> { cowv(self.0) } }

// --- what is written
pub open spec fn esc1(c: char) -> Seq<char> { if c == '"' || c == '\\' { seq!['\\', c] } else { seq![c] } }
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { esc1(s[0]) + esc(s.drop_first()) }
}
pub open spec fn value_text(v: Seq<char>) -> Seq<char> {
    if tokens(v) { v } else { seq!['"'] + esc(v) + seq!['"'] }
}
pub open spec fn param_text(n: Seq<char>, v: Seq<char>) -> Seq<char> { seq![';'] + n + seq!['='] + value_text(v) }
pub open spec fn params_text(l: Seq<(Seq<char>, Seq<char>)>) -> Seq<char> decreases l.len() {
    if l.len() == 0 { seq![] } else { params_text(l.drop_last()) + param_text(l.last().0, l.last().1) }
}
pub open spec fn ps_text(p: Ps) -> Seq<char> {
    (if p.utf8 { ";charset=utf-8"@ } else { seq![] }) + params_text(p.list)
}
pub open spec fn mime_text(m: Mime) -> Seq<char> { cowv(m.essence) + ps_text(ps_of(m.params@, m.is_utf8)) }
impl Show for Mime { open spec fn shown(&self) -> Seq<char> { mime_text(*self) } }

// --- the escaping iterator: what is left of it
impl EscapeMimeValue {
    pub open spec fn left(&self) -> Seq<char> {
        match self.state {
            EscapeMimeValueState::Done => seq![],
            EscapeMimeValueState::Char(c) => seq![c],
            EscapeMimeValueState::Backslash(c) => seq!['\\', c],
        }
    }
}
//@ fn src/mime/parse.rs EscapeMimeValue::backslash
//@ ret r
ensures r.left() == seq!['\\', c],
//@ end
//@ fn src/mime/parse.rs EscapeMimeValue::char
//@ ret r
ensures r.left() == seq![c],
//@ end
impl EscapeMimeValue {
//@ fn src/mime/parse.rs <EscapeMimeValue as Iterator>::next
//@ bare
//@ ret r
ensures
    old(self).left().len() == 0 ==> r is None && final(self).left().len() == 0,
    old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().drop_first(),
//@ at start
proof { match self.state {
    EscapeMimeValueState::Char(c) => { assert(seq![c].drop_first() =~= seq![]); }
    EscapeMimeValueState::Backslash(c) => { assert(seq!['\\', c].drop_first() =~= seq![c]); }
    _ => {}
} }
//@ end
}
// TRUSTED: `chars().flat_map(f).collect()` joins what f's iterators yield, in order.
#[verifier::external_body]
pub fn flat_chars<F: Fn(char) -> EscapeMimeValue>(s: &Cow<'static, str>, f: F) -> (r: String)
    requires
        forall|c: char| f.requires((c,)),
        forall|c: char, y: EscapeMimeValue| f.ensures((c,), y) ==> y.left() == esc1(c),
    ensures r@ == esc(cowv(*s)),
{ unimplemented!() }
// TRUSTED: `chars().all(f)` of a text.
#[verifier::external_body]
pub fn all_chars<F: Fn(char) -> bool>(s: &Cow<'static, str>, f: F, Ghost(p): Ghost<spec_fn(char) -> bool>) -> (r: bool)
    requires
        forall|c: char| f.requires((c,)),
        forall|c: char, y: bool| f.ensures((c,), y) ==> y == p(c),
    ensures r == all(cowv(*s), p),
{ unimplemented!() }
#[verifier::external_body]
pub fn cow_is_empty(s: &Cow<'static, str>) -> (r: bool) ensures r == (cowv(*s).len() == 0) { unimplemented!() }
pub open spec fn token_p() -> spec_fn(char) -> bool { |c: char| token(c) }

//@ fn src/mime/parse.rs is_http_token_code_point
//@ ret r
ensures r == token(c),
//@ at start
proof { let s = seq!['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~'];
    assert(s[0] == '!' && s[1] == '#' && s[2] == '$' && s[3] == '%' && s[4] == '&' && s[5] == '\'' && s[6] == '*' && s[7] == '+' && s[8] == '-' && s[9] == '.' && s[10] == '^' && s[11] == '_' && s[12] == '`' && s[13] == '|' && s[14] == '~'); }
//@ end
//@ fn src/mime/parse.rs format
//@ ret r
ensures
    r is Ok,
    final(f).text() == old(f).text() + mime_text(*mime_type),
//@ fmt
//@ rewrite "value.0.chars().all(is_http_token_code_point)" => "all_chars(&value.0, is_http_token_code_point, Ghost(token_p()))"
//@ rewrite "!value.0.is_empty()" => "!cow_is_empty(&value.0)"
//@ rewrite "value\n                .0\n                .chars()\n                .flat_map(" => "flat_chars(&value.0, "
//@ rewrite ")\n                .collect::<String>()" => ")"
//@ rewrite "mime_type.params.iter()" => "params"
//@ closure 0 types="char" ret="y: EscapeMimeValue"
ensures y.left() == esc1(c),
//@ at start
let ghost out0 = f.text();
let ghost ps = ps_of(mime_type.params@, mime_type.is_utf8);
let params = &mime_type.params;
proof { reveal_strlit(";charset=utf-8"); reveal_strlit(";"); reveal_strlit("="); reveal_strlit("=\""); reveal_strlit("\""); }
//@ loop 0 it=it
invariant
    ps == ps_of(mime_type.params@, mime_type.is_utf8),
    params == &mime_type.params,
    it.seq().len() == params@.len(),
    forall|i: int| 0 <= i < params@.len() ==> #[trigger] it.seq()[i] == params@[i],
    f.text() =~= out0 + cowv(mime_type.essence) + (if ps.utf8 { ";charset=utf-8"@ } else { seq![] }) + params_text(ps.list.take(it.index@)),
//@ at loop 0 start
let ghost t0 = f.text();
proof { reveal_strlit(";"); reveal_strlit("="); reveal_strlit("=\""); reveal_strlit("\""); }
//@ at loop 0 end
proof {
    let k = it.index@;
    let l = ps.list;
    assert(l[k] == (cowv(params@[k].0.0), cowv(params@[k].1.0)));
    assert(l.take(k + 1).drop_last() =~= l.take(k));
    assert(l.take(k + 1).last() == l[k]);
    let v = l[k].1;
    assert(tokens(v) == (all(v, token_p()) && v.len() > 0)) by {
        if tokens(v) { assert forall|i: int| 0 <= i < v.len() implies token_p()(#[trigger] v[i]) by {} }
        if all(v, token_p()) { assert forall|i: int| 0 <= i < v.len() implies token(#[trigger] v[i]) by { assert(token_p()(v[i])); } }
    }
    assert(f.text() =~= t0 + param_text(l[k].0, v));
}
//@ at loop 0 after
proof { assert(ps.list.take(params@.len() as int) =~= ps.list); }
//@ end
impl Mime {
//@ fn src/mime/mod.rs <Mime as Display>::fmt
//@ bare
//@ ret r
ensures r is Ok, final(f).text() == old(f).text() + self.shown(),
//@ rewrite "parse::format(" => "format("
//@ end
}

// --- what is written is read back
pub open spec fn valid_ps(p: Ps) -> bool {
    &&& forall|i: int| 0 <= i < p.list.len() ==> valid_param(#[trigger] p.list[i])
    &&& forall|i: int, j: int| 0 <= i < j < p.list.len() ==> (#[trigger] p.list[i]).0 != (#[trigger] p.list[j]).0
    &&& forall|i: int| 0 <= i < p.list.len() && (#[trigger] p.list[i]).0 == "charset"@ ==> !p.utf8 && p.list[i].1 != "utf-8"@
}
pub open spec fn valid_param(x: (Seq<char>, Seq<char>)) -> bool { tokens(x.0) && lower(x.0) == x.0 && qtokens(x.1) }
pub open spec fn valid_mime(m: Mime) -> bool {
    &&& tokens(cowv(m.basetype)) && lower(cowv(m.basetype)) == cowv(m.basetype)
    &&& tokens(cowv(m.subtype)) && lower(cowv(m.subtype)) == cowv(m.subtype)
    &&& cowv(m.essence) == cowv(m.basetype) + seq!['/'] + cowv(m.subtype)
    &&& valid_ps(ps_of(m.params@, m.is_utf8))
}
pub proof fn lemma_token(c: char)
    requires token(c),
    ensures !ws(c), c != ';', c != '=', c != '/', c != '"', c != '\\',
{
    let s = seq!['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~'];
    if s.contains(c) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
        assert(s[0] == '!' && s[1] == '#' && s[2] == '$' && s[3] == '%' && s[4] == '&' && s[5] == '\'' && s[6] == '*' && s[7] == '+' && s[8] == '-' && s[9] == '.' && s[10] == '^' && s[11] == '_' && s[12] == '`' && s[13] == '|' && s[14] == '~');
    }
}
pub proof fn lemma_esc(v: Seq<char>, r: Seq<char>)
    ensures quoted(esc(v) + seq!['"'] + r) == (v, r),
    decreases v.len(),
{
    let s = esc(v) + seq!['"'] + r;
    if v.len() == 0 {
        assert(s[0] == '"');
        assert(rest(s, 1) =~= r);
        assert(v =~= seq![]);
    } else {
        let w = v.drop_first();
        lemma_esc(w, r);
        let t = esc(w) + seq!['"'] + r;
        assert(s =~= esc1(v[0]) + t);
        if v[0] == '"' || v[0] == '\\' {
            assert(s[0] == '\\' && s[1] == v[0]);
            assert(rest(s, 2) =~= t);
        } else {
            assert(s[0] == v[0]);
            assert(rest(s, 1) =~= t);
        }
        assert(seq![v[0]] + w =~= v);
    }
}
pub proof fn lemma_one(n: Seq<char>, v: Seq<char>, r: Seq<char>, p: Ps)
    requires tokens(n), lower(n) == n, qtokens(v), r.len() > 0 ==> r[0] == ';',
    ensures parameters(param_text(n, v) + r, p) == parameters(r, add(p, n, v)),
{
    let s = param_text(n, v) + r;
    let vt = value_text(v);
    let a = rest(s, 1);
    assert(a =~= n + seq!['='] + vt + r);
    assert(a[0] == n[0]);
    lemma_token(n[0]);
    assert(!ws_p()(a[0]));
    assert(trimmed_start(a, ws_p()) == a);
    let d2 = seq![';', '='];
    assert(d2[0] == ';' && d2[1] == '=');
    assert forall|j: int| 0 <= j < n.len() implies !name_end()(#[trigger] a[j]) by { assert(a[j] == n[j]); lemma_token(n[j]); }
    assert(a[n.len() as int] == '=');
    assert(name_end()(a[n.len() as int])) by { assert(d2.contains('=')); }
    lemma_first_is(a, name_end(), n.len() as int);
    assert(a.subrange(0, n.len() as int) =~= n);
    let b = rest(a, n.len() as int);
    assert(b[0] == '=');
    let c = rest(b, 1);
    assert(c =~= vt + r);
    assert(semi() == is_char(';'));
    assert(first(r, semi()) == 0);
    assert(rest(r, 0) =~= r);
    if tokens(v) {
        assert(c[0] == v[0]);
        lemma_token(v[0]);
        assert forall|j: int| 0 <= j < v.len() implies !semi()(#[trigger] c[j]) by { assert(c[j] == v[j]); lemma_token(v[j]); }
        if r.len() > 0 { assert(c[v.len() as int] == r[0]); }
        lemma_first_is(c, semi(), v.len() as int);
        assert(c.subrange(0, v.len() as int) =~= v);
        assert(v.last() == v[v.len() - 1]);
        lemma_token(v.last());
        assert(!ws_p()(v.last()));
        assert(rest(c, v.len() as int) =~= r);
    } else {
        assert(c[0] == '"');
        assert(rest(c, 1) =~= esc(v) + seq!['"'] + r);
        lemma_esc(v, r);
    }
    assert(s.len() > 0);
}
pub open spec fn tail_text(l: Seq<(Seq<char>, Seq<char>)>) -> Seq<char> decreases l.len() {
    if l.len() == 0 { seq![] } else { param_text(l[0].0, l[0].1) + tail_text(l.drop_first()) }
}
pub proof fn lemma_tail(l: Seq<(Seq<char>, Seq<char>)>)
    ensures params_text(l) == tail_text(l), l.len() > 0 ==> tail_text(l).len() > 0 && tail_text(l)[0] == ';',
    decreases l.len(),
{
    if l.len() > 0 {
        lemma_tail(l.drop_last());
        lemma_tail(l.drop_first());
        if l.len() > 1 {
            let m = l.drop_first().drop_last();
            lemma_tail(m);
            lemma_tail(l.drop_first());
            assert(l.drop_last().drop_first() =~= m);
            assert(l.drop_first().last() == l.last());
            assert(tail_text(l.drop_last()) == param_text(l[0].0, l[0].1) + tail_text(m));
            assert(params_text(l.drop_first()) == params_text(m) + param_text(l.last().0, l.last().1));
            assert(params_text(l) =~= tail_text(l));
        } else {
            assert(l.drop_last() =~= seq![] && l.drop_first() =~= seq![]);
            assert(params_text(l) =~= tail_text(l));
        }
        assert(param_text(l[0].0, l[0].1)[0] == ';');
    }
}
pub proof fn lemma_params(l: Seq<(Seq<char>, Seq<char>)>, p: Ps)
    requires valid_ps(Ps { list: p.list + l, utf8: p.utf8 }),
    ensures parameters(tail_text(l), p) == (Ps { list: p.list + l, utf8: p.utf8 }),
    decreases l.len(),
{
    let w = Ps { list: p.list + l, utf8: p.utf8 };
    if l.len() == 0 { assert(p.list + l =~= p.list); }
    else {
        let k = p.list.len() as int;
        assert(w.list[k] == l[0]);
        lemma_tail(l.drop_first());
        lemma_one(l[0].0, l[0].1, tail_text(l.drop_first()), p);
        if known(p, l[0].0) && !(p.utf8 && l[0].0 == "charset"@) {
            let i = choose|i: int| 0 <= i < p.list.len() && #[trigger] p.list[i].0 == l[0].0;
            assert(w.list[i] == p.list[i]);
        }
        let q = add(p, l[0].0, l[0].1);
        assert(q == (Ps { list: p.list.push(l[0]), utf8: p.utf8 }));
        assert(q.list + l.drop_first() =~= w.list);
        lemma_params(l.drop_first(), q);
    }
}
// the serialised text is well formed and denotes the media type it was made from
pub proof fn lemma_mime_reads(m: Mime)
    requires valid_mime(m),
    ensures well_formed(mime_text(m)), denotes(mime_text(m), m),
{
    let s = mime_text(m);
    let ps = ps_of(m.params@, m.is_utf8);
    let (base, sub, pt) = (cowv(m.basetype), cowv(m.subtype), ps_text(ps));
    let n = base.len() as int;
    assert(s =~= base + seq!['/'] + sub + pt);
    reveal_strlit(";charset=utf-8"); reveal_strlit("charset"); reveal_strlit("utf-8");
    assert(tokens("utf-8"@) && tokens("charset"@) && qtokens("utf-8"@));
    assert(lower("charset"@) =~= "charset"@);
    assert(param_text("charset"@, "utf-8"@) =~= ";charset=utf-8"@);
    lemma_tail(ps.list);
    assert(pt.len() > 0 ==> pt[0] == ';');
    // no white space at either end
    assert(s[0] == base[0]); lemma_token(base[0]);
    assert(trimmed_start(s, ws_p()) == s);
    lemma_last(m);
    assert(trimmed_end(s, ws_p()) == s);
    assert forall|j: int| 0 <= j < n implies !slash()(#[trigger] s[j]) by { assert(s[j] == base[j]); lemma_token(base[j]); }
    assert(s[n] == '/');
    lemma_first_is(s, slash(), n);
    assert(s.subrange(0, n) =~= base);
    let u = rest(s, n + 1);
    assert(u =~= sub + pt);
    assert forall|j: int| 0 <= j < sub.len() implies !semi()(#[trigger] u[j]) by { assert(u[j] == sub[j]); lemma_token(sub[j]); }
    if pt.len() > 0 { assert(u[sub.len() as int] == pt[0]); }
    lemma_first_is(u, semi(), sub.len() as int);
    assert(u.subrange(0, sub.len() as int) =~= sub);
    lemma_token(sub[sub.len() - 1]);
    assert(sub.last() == sub[sub.len() - 1]);
    assert(trimmed_end(sub, ws_p()) == sub);
    assert(rest(u, sub.len() as int) =~= pt);
    let p0 = Ps { list: seq![], utf8: false };
    if ps.utf8 {
        assert(pt =~= param_text("charset"@, "utf-8"@) + tail_text(ps.list));
        lemma_one("charset"@, "utf-8"@, tail_text(ps.list), p0);
        let p1 = Ps { list: seq![], utf8: true };
        assert(add(p0, "charset"@, "utf-8"@) == p1);
        assert(p1.list + ps.list =~= ps.list);
        lemma_params(ps.list, p1);
    } else {
        assert(pt =~= tail_text(ps.list));
        assert(p0.list + ps.list =~= ps.list);
        lemma_params(ps.list, p0);
    }
}
pub proof fn lemma_last(m: Mime)
    requires valid_mime(m),
    ensures !ws(mime_text(m).last()),
{
    let ps = ps_of(m.params@, m.is_utf8);
    let sub = cowv(m.subtype);
    reveal_strlit(";charset=utf-8");
    let s = mime_text(m);
    if ps.list.len() > 0 {
        let (n, v) = ps.list.last();
        assert(valid_param(ps.list[ps.list.len() - 1]));
        let t = param_text(n, v);
        assert(s.last() == t.last());
        if tokens(v) { assert(t.last() == v[v.len() - 1]); lemma_token(v[v.len() - 1]); }
    } else {
        assert(params_text(ps.list) =~= seq![]);
        if ps.utf8 { assert(s.last() == '8'); }
        else { assert(s =~= cowv(m.essence)); assert(s.last() == sub[sub.len() - 1]); lemma_token(sub[sub.len() - 1]); }
    }
}
// every media type that was read is of that form, so reading, writing and reading again is stable
pub proof fn lemma_add_valid(p: Ps, n: Seq<char>, v: Seq<char>)
    requires valid_ps(p), lower(n) == n,
    ensures valid_ps(add(p, n, v)),
{
    if tokens(n) && qtokens(v) && !known(p, n) {
        let q = add(p, n, v);
        if n == "charset"@ && v == "utf-8"@ {
            assert forall|i: int| 0 <= i < q.list.len() implies (#[trigger] q.list[i]).0 != "charset"@ by { if p.list[i].0 == "charset"@ { assert(known(p, n)); } }
            assert(forall|i: int| 0 <= i < q.list.len() ==> valid_param(#[trigger] q.list[i]));
        } else {
            let k = p.list.len() as int;
            assert forall|i: int| 0 <= i < q.list.len() implies valid_param(#[trigger] q.list[i]) by { if i < k { assert(q.list[i] == p.list[i]); } }
            assert forall|i: int, j: int| 0 <= i < j < q.list.len() implies (#[trigger] q.list[i]).0 != (#[trigger] q.list[j]).0 by {
                assert(q.list[i] == p.list[i]);
                if j < k { assert(q.list[j] == p.list[j]); } else if p.list[i].0 == n { assert(known(p, n)); }
            }
            assert forall|i: int| 0 <= i < q.list.len() && (#[trigger] q.list[i]).0 == "charset"@ implies !q.utf8 && q.list[i].1 != "utf-8"@ by {
                if i < k { assert(q.list[i] == p.list[i]); }
            }
        }
    }
}
pub proof fn lemma_lower_twice(s: Seq<char>)
    ensures lower(lower(s)) == lower(s),
{
    assert(lower(lower(s)) =~= lower(s));
}
pub proof fn lemma_parameters_valid(s: Seq<char>, p: Ps)
    requires valid_ps(p),
    ensures valid_ps(parameters(s, p)),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = trimmed_start(rest(s, 1), ws_p());
        let k = first(a, name_end());
        let name = lower(a.subrange(0, k));
        lemma_lower_twice(a.subrange(0, k));
        let b = rest(a, k);
        if b.len() > 0 {
            if b[0] == ';' { if b.len() < s.len() { lemma_parameters_valid(b, p); } }
            else {
                let c = rest(b, 1);
                if c.len() > 0 && c[0] == '"' {
                    let q = quoted(rest(c, 1));
                    let d = rest(q.1, first(q.1, semi()));
                    lemma_add_valid(p, name, q.0);
                    if d.len() < s.len() { lemma_parameters_valid(d, add(p, name, q.0)); }
                } else {
                    let v = trimmed_end(c.subrange(0, first(c, semi())), ws_p());
                    let d = rest(c, first(c, semi()));
                    lemma_add_valid(p, name, v);
                    if d.len() < s.len() { lemma_parameters_valid(d, if v.len() == 0 { p } else { add(p, name, v) }); }
                }
            }
        }
    }
}
pub proof fn lemma_lower_tokens(s: Seq<char>)
    requires tokens(s),
    ensures tokens(lower(s)),
{
    let k = seq!['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~'];
    assert forall|i: int| 0 <= i < lower(s).len() implies token(#[trigger] lower(s)[i]) by { assert(token(s[i])); }
}
pub proof fn lemma_read_valid(s: Seq<char>, m: Mime)
    requires denotes(s, m),
    ensures valid_mime(m), denotes(mime_text(m), m),
{
    let t = trimmed_end(trimmed_start(s, ws_p()), ws_p());
    let i = first(t, slash());
    let base = t.subrange(0, i);
    let u = rest(t, i + 1);
    let sub = trimmed_end(u.subrange(0, first(u, semi())), ws_p());
    lemma_lower_twice(base); lemma_lower_twice(sub);
    lemma_lower_tokens(base); lemma_lower_tokens(sub);
    lemma_parameters_valid(rest(u, first(u, semi())), Ps { list: seq![], utf8: false });
    lemma_mime_reads(m);
}
}
fn main() {}
