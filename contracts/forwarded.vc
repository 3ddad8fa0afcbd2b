//@ # P08: tokens, quoted strings and the Forwarded grammar.
use std::borrow::Cow;
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@ include std_axioms.inc
//@ include str_shims.inc
//@ include quoted.inc
//@ include indices.inc
#[verifier::external_body]
pub fn str_get_to(s: &str, n: usize) -> (r: Option<&str>)
    ensures match r {
        Some(t) => boundary(s@, n as int) && forall|k: int| #[trigger] at(s@, n as int, k) ==> t@ == s@.subrange(0, k),
        None => !boundary(s@, n as int),
    },
{ s.get(..n) }

#[verifier::external_body]
pub fn vec_reverse(v: &mut Vec<usize>)
    ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[old(v)@.len() - 1 - i],
{ v.reverse() }
pub const CHAR_MAX: char = '\u{10ffff}';
//@ include forwarded_spec.inc
//@ fn src/parse_utils.rs tchar
//@ ret r
ensures r == tchar_spec(c),
//@ at start
proof { let s = seq!['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~'];
    assert(s[0] == '!' && s[1] == '#' && s[2] == '$' && s[3] == '%' && s[4] == '&' && s[5] == '\'' && s[6] == '*' && s[7] == '+' && s[8] == '-' && s[9] == '.' && s[10] == '^' && s[11] == '_' && s[12] == '`' && s[13] == '|' && s[14] == '~'); }
//@ end
//@ fn src/parse_utils.rs vchar
//@ ret r
ensures r == escapable(c),
//@ rewrite "char::MAX" => "CHAR_MAX"
//@ end
//@ fn src/parse_utils.rs parse_token
//@ ret r
ensures
    token(input@) is Some ==> r.0 is Some && (r.0->0)@ == (token(input@)->0).0 && r.1@ == (token(input@)->0).1,
    token(input@) is None ==> r.0 is None && r.1@ == input@,
//@ rewrite "input.char_indices()" => "indices(input, 0)"
//@ rewrite "&input[..end_of_token]" => "str_to(input, end_of_token)"
//@ rewrite "&input[end_of_token..]" => "str_from(input, end_of_token)"
//@ at start
proof { lemma_first(input@, not_tchar()); lemma_tchars(); lemma_at_unique(input@); }
//@ loop 0 it=it
invariant_except_break
    end_of_token == it.index@,
invariant
    0 <= end_of_token <= input@.len(),
    forall|j: int| 0 <= j < end_of_token ==> tchar_spec(#[trigger] input@[j]),
ensures
    end_of_token < input@.len() ==> !tchar_spec(input@[end_of_token as int]),
//@ at loop 0 start
proof { lemma_tchars(); lemma_off_ascii(input@, it.index@); lemma_bytes(input); }
//@ at loop 0 after
proof {
    lemma_tchars();
    lemma_off_ascii(input@, end_of_token as int);
    lemma_first_is(input@, not_tchar(), end_of_token as int);
    assert(at(input@, end_of_token as int, end_of_token as int));
}
//@ end
// A text in memory has a length that fits a usize.
pub axiom fn lemma_bytes(s: &str) ensures off(s@, s@.len() as int) <= usize::MAX, s@.len() <= usize::MAX;

// --- quoted strings
pub open spec fn plus(o: Option<int>, n: int) -> Option<int> { match o { Some(m) => Some(m + n), None => None } }
pub open spec fn scan_esc(s: Seq<char>) -> Option<int> { if s.len() >= 1 && escapable(s[0]) { plus(scan(suf(s, 1)), 1) } else { None } }
// no backslash is left dangling at the end
pub open spec fn complete(s: Seq<char>) -> bool decreases s.len() {
    if s.len() == 0 { true } else if s[0] == '\\' { s.len() >= 2 && complete(suf(s, 2)) } else { complete(suf(s, 1)) }
}
pub proof fn lemma_unescape(a: Seq<char>, b: Seq<char>)
    requires complete(a),
    ensures unescape(a + b) == unescape(a) + unescape(b), complete(a + b) == complete(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(unescape(a) + unescape(b) =~= unescape(b)); }
    else if a[0] == '\\' {
        lemma_unescape(suf(a, 2), b);
        assert(suf(a + b, 2) =~= suf(a, 2) + b);
        assert(seq![a[1]] + unescape(suf(a, 2)) + unescape(b) =~= seq![a[1]] + (unescape(suf(a, 2)) + unescape(b)));
    } else {
        lemma_unescape(suf(a, 1), b);
        assert(suf(a + b, 1) =~= suf(a, 1) + b);
        assert(seq![a[0]] + unescape(suf(a, 1)) + unescape(b) =~= seq![a[0]] + (unescape(suf(a, 1)) + unescape(b)));
    }
}
pub proof fn lemma_unescape_one(c: char)
    ensures c != '\\' ==> unescape(seq![c]) == seq![c] && complete(seq![c]),
{ assert(suf(seq![c], 1) =~= seq![]); assert(seq![c] + unescape(seq![]) =~= seq![c]); assert(complete(seq![])); assert(seq![c][0] == c); }
pub proof fn lemma_unescape_two(c: char)
    ensures unescape(seq!['\\', c]) == seq![c], complete(seq!['\\', c]),
{ let s = seq!['\\', c]; assert(suf(s, 2) =~= seq![]); assert(seq![c] + unescape(seq![]) =~= seq![c]); assert(complete(seq![])); assert(s[0] == '\\' && s[1] == c && s.len() == 2); }
// the characters lo..hi of s whose offset is not one of b (counted from the first character)
pub open spec fn keep(s: Seq<char>, hi: int, b: Seq<usize>) -> Seq<char> decreases hi {
    if hi <= 1 { seq![] }
    else if exists|t: int| 0 <= t < b.len() && #[trigger] b[t] == off(s, hi - 1) - 1 { keep(s, hi - 1, b) }
    else { keep(s, hi - 1, b).push(s[hi - 1]) }
}
pub proof fn lemma_keep_push(s: Seq<char>, hi: int, b: Seq<usize>, x: usize)
    requires 1 <= hi <= s.len(), x >= off(s, hi) - 1,
    ensures keep(s, hi, b.push(x)) == keep(s, hi, b),
    decreases hi,
{
    if hi > 1 {
        lemma_off_mono(s, hi - 1, hi);
        lemma_keep_push(s, hi - 1, b, x);
        if exists|t: int| 0 <= t < b.len() && #[trigger] b[t] == off(s, hi - 1) - 1 {
            let t = choose|t: int| 0 <= t < b.len() && #[trigger] b[t] == off(s, hi - 1) - 1;
            assert(b.push(x)[t] == off(s, hi - 1) - 1);
        }
        if exists|t: int| 0 <= t < b.push(x).len() && #[trigger] b.push(x)[t] == off(s, hi - 1) - 1 {
            let t = choose|t: int| 0 <= t < b.push(x).len() && #[trigger] b.push(x)[t] == off(s, hi - 1) - 1;
            assert(b[t] == off(s, hi - 1) - 1);
        }
    }
}
pub proof fn lemma_keep_none(s: Seq<char>, hi: int)
    requires 1 <= hi <= s.len(),
    ensures keep(s, hi, seq![]) == s.subrange(1, hi),
    decreases hi,
{
    if hi > 1 { lemma_keep_none(s, hi - 1); assert(s.subrange(1, hi) =~= s.subrange(1, hi - 1).push(s[hi - 1])); }
    else { assert(s.subrange(1, hi) =~= seq![]); }
}
pub open spec fn increasing(b: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] b[i] < #[trigger] b[j] }
pub open spec fn pending(s: Seq<char>, j: int, b: Seq<usize>) -> bool { b.len() > 0 && b.last() == off(s, j) - 2 }
pub open spec fn is_off(s: Seq<char>, x: int) -> bool { exists|p: int| 1 <= p <= s.len() && x == #[trigger] off(s, p) - 1 }
pub open spec fn all_off(s: Seq<char>, b: Seq<usize>) -> bool { forall|t: int| 0 <= t < b.len() ==> is_off(s, #[trigger] b[t] as int) }
pub open spec fn qinv(s: Seq<char>, j: int, b: Seq<usize>) -> bool {
    let e = pending(s, j, b);
    &&& 1 <= j <= s.len()
    &&& scan(suf(s, 1)) == plus(if e { scan_esc(suf(s, j)) } else { scan(suf(s, j)) }, j - 1)
    &&& increasing(b)
    &&& forall|t: int| 0 <= t < b.len() ==> (#[trigger] b[t]) + 2 <= off(s, j)
    &&& all_off(s, b)
    &&& !e ==> complete(s.subrange(1, j)) && unescape(s.subrange(1, j)) == keep(s, j, b)
    &&& e ==> j >= 2 && s[j - 1] == '\\' && complete(s.subrange(1, j - 1)) && unescape(s.subrange(1, j - 1)) == keep(s, j, b)
}
pub proof fn lemma_step(s: Seq<char>, j: int, b: Seq<usize>)
    requires qinv(s, j, b), j < s.len(), off(s, s.len() as int) <= usize::MAX,
    ensures
        pending(s, j, b) && escapable(s[j]) ==> qinv(s, j + 1, b),
        pending(s, j, b) && !escapable(s[j]) ==> scan(suf(s, 1)) is None,
        !pending(s, j, b) && s[j] == '\\' ==> qinv(s, j + 1, b.push((off(s, j) - 1) as usize)),
        !pending(s, j, b) && s[j] == '"' ==> scan(suf(s, 1)) == Some(j),
        !pending(s, j, b) && s[j] != '\\' && s[j] != '"' && qdtext(s[j]) ==> qinv(s, j + 1, b),
        !pending(s, j, b) && s[j] != '\\' && s[j] != '"' && !qdtext(s[j]) ==> scan(suf(s, 1)) is None,
{
    let r = suf(s, j);
    let c = s[j];
    assert(r[0] == c);
    assert(suf(r, 1) =~= suf(s, j + 1));
    if r.len() >= 2 { assert(suf(r, 2) =~= suf(suf(s, j + 1), 1)); assert(r[1] == suf(s, j + 1)[0]); }
    assert(off(s, j + 1) == off(s, j) + clen(c));
    lemma_off_mono(s, j, s.len() as int);
    lemma_off_mono(s, 0, j);
    assert(s.subrange(1, j + 1) =~= s.subrange(1, j) + seq![c]);
    assert(!(exists|t: int| 0 <= t < b.len() && #[trigger] b[t] == off(s, j) - 1));
    assert(keep(s, j + 1, b) == keep(s, j, b).push(c));
    assert(keep(s, j, b) + seq![c] =~= keep(s, j, b).push(c));
    if pending(s, j, b) {
        assert(s.subrange(1, j + 1) =~= s.subrange(1, j - 1) + seq!['\\', c]);
        lemma_unescape(s.subrange(1, j - 1), seq!['\\', c]);
        lemma_unescape_two(c);
    } else {
        lemma_unescape(s.subrange(1, j), seq![c]);
        lemma_unescape_one(c);
        let x = (off(s, j) - 1) as usize;
        assert(is_off(s, x as int)) by { assert(x as int == off(s, j) - 1); }
        lemma_keep_push(s, j, b, x);
        assert(b.push(x)[b.len() as int] == off(s, j) - 1);
        assert(keep(s, j + 1, b.push(x)) == keep(s, j, b.push(x)));
    }
}
// the second loop of parse_quoted_string: characters copied, offsets of backslashes still to drop
pub open spec fn filtering(s: Seq<char>, v: Seq<char>, out: Seq<char>, bs: Seq<usize>, b: Seq<usize>, k: int) -> bool {
    let q = b.len() - bs.len();
    &&& s.len() > v.len() && s[0] == '"' && v == s.subrange(1, v.len() as int + 1)
    &&& 0 <= k <= v.len()
    &&& out == keep(s, k + 1, b)
    &&& q >= 0
    &&& increasing(b)
    &&& all_off(s, b)
    &&& forall|t: int| 0 <= t < bs.len() ==> #[trigger] bs[t] == b[b.len() - 1 - t]
    &&& forall|t: int| 0 <= t < q ==> #[trigger] b[t] < off(v, k)
    &&& forall|t: int| q <= t < b.len() ==> #[trigger] b[t] >= off(v, k)
}
pub proof fn lemma_off_sub(s: Seq<char>, k: int, hi: int)
    requires s.len() > 0, s[0] == '"', 0 <= k <= hi - 1, 1 <= hi <= s.len(),
    ensures off(s.subrange(1, hi), k) == off(s, k + 1) - 1,
    decreases k,
{
    if k > 0 { lemma_off_sub(s, k - 1, hi); } else { assert(off(s, 1) == off(s, 0) + clen(s[0])); }
}
pub proof fn lemma_between(s: Seq<char>, v: Seq<char>, b: Seq<usize>, k: int, t: int)
    requires
        s.len() > v.len(), s[0] == '"', v == s.subrange(1, v.len() as int + 1), 0 <= k < v.len(),
        0 <= t < b.len(), all_off(s, b), b[t] > off(v, k),
    ensures b[t] >= off(v, k + 1),
{
    lemma_off_sub(s, k, v.len() as int + 1);
    lemma_off_sub(s, k + 1, v.len() as int + 1);
    assert(is_off(s, b[t] as int));
    let p = choose|p: int| 1 <= p <= s.len() && b[t] as int == #[trigger] off(s, p) - 1;
    if p <= k + 1 { lemma_off_mono(s, p, k + 1); } else { lemma_off_mono(s, k + 2, p); }
}
pub proof fn lemma_filtering(s: Seq<char>, v: Seq<char>, o0: Seq<char>, bs0: Seq<usize>, b: Seq<usize>, k: int, o1: Seq<char>, bs1: Seq<usize>)
    requires
        filtering(s, v, o0, bs0, b, k),
        k < v.len(),
        (bs0.len() > 0 && bs0.last() == off(v, k) && bs1 == bs0.drop_last() && o1 == o0)
        || ((bs0.len() == 0 || bs0.last() != off(v, k)) && bs1 == bs0 && o1 == o0.push(v[k])),
    ensures filtering(s, v, o1, bs1, b, k + 1),
{
    let q = b.len() - bs0.len();
    lemma_off_sub(s, k, v.len() as int + 1);
    assert(off(v, k + 1) == off(v, k) + clen(v[k]));
    if bs0.len() > 0 { assert(bs0[bs0.len() - 1] == b[q]); }
    if exists|t: int| 0 <= t < b.len() && #[trigger] b[t] == off(s, k + 1) - 1 {
        let t = choose|t: int| 0 <= t < b.len() && #[trigger] b[t] == off(s, k + 1) - 1;
        assert(t >= q);
        if t > q { assert(b[q] < b[t]); assert(b[q] >= off(v, k)); }
    }
    if bs0.len() > 0 && bs0.last() == off(v, k) {
        assert(b[q] == off(s, k + 1) - 1);
        assert forall|t: int| q + 1 <= t < b.len() implies #[trigger] b[t] >= off(v, k + 1) by {
            assert(b[q] < b[t]);
            lemma_between(s, v, b, k, t);
        }
    } else {
        assert forall|t: int| q <= t < b.len() implies #[trigger] b[t] >= off(v, k + 1) by { lemma_between(s, v, b, k, t); }
    }
}
pub open spec fn found(s: Seq<char>, e: int, b: Seq<usize>) -> bool {
    let n = scan(suf(s, 1))->0;
    scan(suf(s, 1)) is Some && 1 <= n < s.len() && s[n] == '"' && e == off(s, n) + 1 && unescape(s.subrange(1, n)) == keep(s, n, b) && increasing(b) && all_off(s, b)
}
//@ fn src/parse_utils.rs parse_quoted_string
//@ ret r
ensures
    quoted(input@) is Some ==> r.0 is Some && cowt(r.0->0) == (quoted(input@)->0).0 && r.1@ == (quoted(input@)->0).1,
    quoted(input@) is None ==> r.0 is None && r.1@ == input@,
//@ rewrite "input.char_indices().skip(1)" => "indices(input, 1)"
//@ loop 0 it=it
invariant_except_break
    end_of_string is None,
    qinv(input@, it.index@ + 1, backslashes@),
invariant
    input@.len() > 0, input@[0] == '"',
ensures
    end_of_string is None ==> scan(suf(input@, 1)) is None,
    end_of_string matches Some(e) ==> found(input@, e as int, backslashes@),
//@ at loop 0 start
proof { lemma_bytes(input); lemma_step(input@, it.index@ + 1, backslashes@); lemma_off_mono(input@, 1, it.index@ + 1); assert(off(input@, 1) == off(input@, 0) + clen(input@[0]));
    lemma_off_mono(input@, it.index@ + 2, input@.len() as int); }
//@ at loop 0 after
let ghost b0 = backslashes@;
proof {
    if let Some(e) = end_of_string {
        lemma_at_unique(input@);
        let n = scan(suf(input@, 1))->0;
        lemma_at_one(input@);
        lemma_off_mono(input@, 1, n);
        assert(off(input@, n + 1) == off(input@, n) + clen(input@[n]));
        assert(at(input@, e as int, n + 1));
        assert(at(input@, e as int - 1, n));
        lemma_bytes(input);
        lemma_keep_none(input@, n);
        if b0.len() == 0 { assert(b0 =~= seq![]); }
        lemma_off_sub(input@, 0, n);
    }
}
//@ rewrite "backslashes.reverse();" => "vec_reverse(&mut backslashes);"
//@ rewrite "!input.starts_with('" => "!str_starts_with_char(input, '"
//@ rewrite "char::MAX" => "CHAR_MAX"
//@ rewrite "&input[1..end_of_string - 1]" => "str_range(input, 1, end_of_string - 1)"
//@ rewrite "&input[end_of_string..]" => "str_from(input, end_of_string)"
//@ rewrite "            value.into()" => "            cow_borrowed(value)"
//@ rewrite "            value\n                .char_indices()\n                .filter_map(|(i, c)| {" => "            cow_owned({ let mut out_ = String::new(); for (i, c) in it2: indices(value, 0) invariant filtering(input@, value@, out_@, backslashes@, b0, it2.index@), { let ghost o0 = out_@; let ghost bs0 = backslashes@; let y_ = {"
//@ rewrite "                })\n                .collect::<String>()\n                .into()" => "                }; if let Some(z_) = y_ { out_.push(z_); } proof { lemma_filtering(input@, value@, o0, bs0, b0, it2.index@, out_@, backslashes@); } } out_ })"
//@ end

//@ fn src/proxies/forwarded.rs starts_with_ignore_case
//@ ret r
requires forall|i: int| 0 <= i < start@.len() ==> (#[trigger] start@[i] as u32) < 0x80,
ensures r == begins(input@, start@),
//@ rewrite "input.get(..start.len())" => "str_get_to(input, str_len(start))"
//@ at start
proof {
    let n = start@.len() as int;
    lemma_off_ascii(start@, n);
    lemma_at_unique(input@);
    if begins(input@, start@) {
        lemma_begins_ascii(input@, start@);
        lemma_off_ascii(input@, n);
        assert(at(input@, n, n));
    }
    assert forall|k: int| #[trigger] at(input@, n, k) && lower(input@.subrange(0, k)) == lower(start@) implies begins(input@, start@) by {
        assert(lower(input@.subrange(0, k)).len() == k && lower(start@).len() == n);
    }
}
//@ end
//@ fn src/proxies/forwarded.rs match_ignore_case
//@ ret r
requires forall|i: int| 0 <= i < start@.len() ==> (#[trigger] start@[i] as u32) < 0x80,
ensures
    r.0 == begins(input@, start@),
    r.0 ==> r.1@ == suf(input@, start@.len() as int),
    !r.0 ==> r.1@ == input@,
//@ rewrite "&input[start.len()..]" => "str_from(input, str_len(start))"
//@ at start
proof {
    let n = start@.len() as int;
    lemma_off_ascii(start@, n);
    if begins(input@, start@) {
        lemma_begins_ascii(input@, start@);
        lemma_off_ascii(input@, n);
        assert(at(input@, n, n));
    }
}
//@ end
//@ fn src/proxies/forwarded.rs parse_value
//@ ret r
ensures
    value(input@) is Some ==> r.0 is Some && cowt(r.0->0) == (value(input@)->0).0 && r.1@ == (value(input@)->0).1,
    value(input@) is None ==> r.0 is None && r.1@ == input@,
//@ rewrite "Cow::Borrowed(token)" => "cow_borrowed(token)"
//@ end

//@ fn src/proxies/forwarded.rs ParseError::new
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::new
//@ ret r
ensures r.fields() == no_fields(),
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::parse
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
ensures
    r matches Ok(f) ==> fwd(input@, no_fields()) == Some(f.fields()),
    r is Err ==> fwd(input@, no_fields()) is None,
//@ at start
let ghost input0 = input@;
proof { lemma_for(); }
//@ loop 0
invariant fwd(input0, no_fields()) == fwd(input@, forwarded.fields()),
decreases input@.len(),
//@ at loop 0 start
proof { lemma_for(); lemma_for_len(input@, forwarded.fields().fors); lemma_pair_len(input@, forwarded.fields()); }
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::parse_forwarded_pair
//@ ret r
ensures
    r matches Ok(t) ==> pair(input@, old(self).fields()) == Some((final(self).fields(), t@)),
    r is Err ==> pair(input@, old(self).fields()) is None,
//@ rewrite "rest.starts_with('=')" => "str_starts_with_char(rest, '=')"
//@ rewrite "&rest[1..]" => "str_from(rest, 1)"
//@ rewrite "rest.strip_prefix(';')" => "str_strip_prefix_char(rest, ';')"
//@ at start
broadcast use lemma_skip_one;
proof { broadcast use axiom_str_ext; reveal_strlit("by"); reveal_strlit("host"); reveal_strlit("proto"); }
//@ end
//@ fn src/proxies/forwarded.rs Forwarded::parse_for
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
ensures
    r matches Ok(t) ==> for_list(input@, old(self).fields().fors) == Some((final(self).fields().fors, t@))
        && final(self).fields() == (F { fors: final(self).fields().fors, ..old(self).fields() }),
    r is Err ==> for_list(input@, old(self).fields().fors) is None,
//@ at start
broadcast use lemma_skip_one;
let ghost f0 = self.fields();
//@ rewrite "rest[1..].trim_start()" => "str_trim_start(str_from(rest, 1))"
//@ rewrite "&rest[1..]" => "str_from(rest, 1)"
//@ loop 0
invariant
    f0 == old(self).fields(),
    for_list(input@, f0.fors) == for_list(rest@, self.fields().fors),
    self.fields() == (F { fors: self.fields().fors, ..f0 }),
decreases rest@.len(),
//@ at loop 0 start
let ghost r0 = rest@;
let ghost acc = self.fields().fors;
broadcast use lemma_skip_one;
proof {
    lemma_for();
    if begins(r0, "for="@) {
        lemma_value_len(suf(r0, 4));
        if let Some((v, r)) = value(suf(r0, 4)) {
            if r.len() > 0 { lemma_trim_len(suf(r, 1), is_white()); }
            assert(forall|c: Cow<'a, str>| #[trigger] cowt(c) == v ==> self.forwarded_for@.push(c).map_values(|c: Cow<'a, str>| cowt(c)) =~= acc.push(v));
        }
    }
}
//@ end

//@ fn src/proxies/forwarded.rs format_value
//@ ret r
ensures cowt(r) == fmt_value(input@),
//@ rewrite "=> input.into()" => "=> cow_borrowed(input)"
//@ rewrite "string.into()" => "cow_owned(string)"
//@ rewrite "String::from(" => "str::to_owned("
//@ at start
proof {
    reveal_strlit(""); reveal_strlit("\""); broadcast use axiom_str_ext; lemma_first(input@, not_tchar());
    assert(input@.subrange(0, input@.len() as int) =~= input@);
    assert(suf(input@, input@.len() as int) =~= Seq::<char>::empty());
    assert(""@ =~= Seq::<char>::empty());
}
//@ loop 0 it=it
invariant string@ == seq!['"'] + esc(input@.subrange(0, it.index@)),
//@ at loop 0 start
proof {
    let i = it.index@;
    assert(input@.subrange(0, i + 1) =~= input@.subrange(0, i).push(input@[i]));
    lemma_esc_push(input@.subrange(0, i), input@[i]);
    let a = esc(input@.subrange(0, i));
    assert((seq!['"'] + a).push('\\').push(input@[i]) =~= seq!['"'] + (a + seq!['\\', input@[i]]));
    assert((seq!['"'] + a).push(input@[i]) =~= seq!['"'] + (a + seq![input@[i]]));
}
//@ at loop 0 before
proof { assert(input@.subrange(0, 0) =~= seq![]); assert(esc(seq![]) =~= seq![]); assert(string@ =~= seq!['"'] + esc(input@.subrange(0, 0))); }
//@ at loop 0 after
proof { assert(input@.subrange(0, input@.len() as int) =~= input@); assert((seq!['"'] + esc(input@)).push('"') =~= seq!['"'] + esc(input@) + seq!['"']); }
//@ end
}
fn main() {}
