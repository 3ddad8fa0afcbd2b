// The Forwarded grammar (RFC 7239), what a value stands for, and how a value is written.
// --- RFC 7230 3.2.6
pub open spec fn tchar_spec(c: char) -> bool {
    ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9')
    || seq!['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~'].contains(c)
}
pub open spec fn not_tchar() -> spec_fn(char) -> bool { |c: char| !tchar_spec(c) }
pub open spec fn token(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let k = first(s, not_tchar());
    if k == 0 { None } else { Some((s.subrange(0, k), suf(s, k))) }
}
pub open spec fn value(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match token(s) { Some(x) => Some(x), None => quoted(s) }
}
pub proof fn lemma_tchars()
    ensures forall|c: char| #[trigger] tchar_spec(c) ==> (c as u32) < 0x80,
{
    let s = seq!['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~'];
    assert forall|c: char| #[trigger] tchar_spec(c) implies (c as u32) < 0x80 by {
        if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert((s[i] as u32) < 0x80); }
    }
}
pub proof fn lemma_off_ascii(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i] as u32) < 0x80,
    ensures off(s, k) == k,
    decreases k,
{
    if k > 0 { lemma_off_ascii(s, k - 1); assert((s[k - 1] as u32) < 0x80); }
}
pub proof fn lemma_at_one(s: Seq<char>)
    requires s.len() > 0, (s[0] as u32) < 0x80,
    ensures at(s, 1, 1), forall|k: int| #[trigger] at(s, 1, k) ==> k == 1,
{
    assert(off(s, 1) == off(s, 0) + clen(s[0]));
    assert forall|k: int| #[trigger] at(s, 1, k) implies k == 1 by { if k > 1 { lemma_off_mono(s, 1, k); } }
}

pub broadcast proof fn lemma_skip_one(s: Seq<char>)
    requires s.len() > 0, (s[0] as u32) < 0x80,
    ensures #[trigger] boundary(s, 1), at(s, 1, 1), forall|k: int| #[trigger] at(s, 1, k) ==> k == 1,
{ lemma_at_one(s); }
pub proof fn lemma_scan_shape(s: Seq<char>)
    ensures scan(s) matches Some(n) ==> 1 <= n <= s.len() && s[n - 1] == '"',
    decreases s.len(),
{
    if s.len() > 0 { if s.len() >= 2 { lemma_scan_shape(suf(s, 2)); } lemma_scan_shape(suf(s, 1)); }
}
// --- RFC 7239
pub ghost struct F { pub by: Option<Seq<char>>, pub fors: Seq<Seq<char>>, pub host: Option<Seq<char>>, pub proto: Option<Seq<char>> }
pub open spec fn no_fields() -> F { F { by: None, fors: seq![], host: None, proto: None } }
pub open spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && lower(s.subrange(0, p.len() as int)) == lower(p) }
pub open spec fn pair(s: Seq<char>, f: F) -> Option<(F, Seq<char>)> {
    match token(s) {
        None => None,
        Some((k, r)) => if r.len() == 0 || r[0] != '=' { None } else {
            match value(suf(r, 1)) {
                None => None,
                Some((v, r2)) => {
                    let r3 = if r2.len() > 0 && r2[0] == ';' { suf(r2, 1) } else { r2 };
                    if k == "by"@ { if f.by is Some { None } else { Some((F { by: Some(v), ..f }, r3)) } }
                    else if k == "host"@ { if f.host is Some { None } else { Some((F { host: Some(v), ..f }, r3)) } }
                    else if k == "proto"@ { if f.proto is Some { None } else { Some((F { proto: Some(v), ..f }, r3)) } }
                    else { Some((f, r3)) }
                },
            }
        },
    }
}
pub open spec fn for_list(s: Seq<char>, acc: Seq<Seq<char>>) -> Option<(Seq<Seq<char>>, Seq<char>)> decreases s.len() {
    if !begins(s, "for="@) { None } else {
        match value(suf(s, 4)) {
            None => None,
            Some((v, r)) => if r.len() == 0 { Some((acc.push(v), r)) }
                else if r[0] == ';' { Some((acc.push(v), suf(r, 1))) }
                else if r[0] == ',' {
                    let r2 = trimmed_start(suf(r, 1), is_white());
                    if r2.len() < s.len() { for_list(r2, acc.push(v)) } else { None }
                } else { None },
        }
    }
}
pub open spec fn fwd(s: Seq<char>, f: F) -> Option<F> decreases s.len() {
    if s.len() == 0 { Some(f) }
    else if begins(s, "for="@) {
        match for_list(s, f.fors) { Some((fs, r)) => if r.len() < s.len() { fwd(r, F { fors: fs, ..f }) } else { None }, None => None }
    } else {
        match pair(s, f) { Some((g, r)) => if r.len() < s.len() { fwd(r, g) } else { None }, None => None }
    }
}
pub proof fn lemma_trim_len(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures trimmed_start(s, p).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_trim_len(s.drop_first(), p); } }
pub proof fn lemma_value_len(s: Seq<char>)
    ensures value(s) matches Some(x) ==> x.1.len() < s.len(),
{
    lemma_first(s, not_tchar());
    if s.len() > 0 { lemma_scan_shape(suf(s, 1)); }
}
pub proof fn lemma_pair_len(s: Seq<char>, f: F)
    ensures pair(s, f) matches Some(x) ==> x.1.len() < s.len(),
{
    lemma_first(s, not_tchar());
    if let Some((k, r)) = token(s) { if r.len() > 0 { lemma_value_len(suf(r, 1)); } }
}
pub proof fn lemma_for()
    ensures "for="@.len() == 4, forall|i: int| 0 <= i < 4 ==> (#[trigger] "for="@[i] as u32) < 0x80,
{ reveal_strlit("for="); }
pub proof fn lemma_for_len(s: Seq<char>, acc: Seq<Seq<char>>)
    ensures for_list(s, acc) matches Some(x) ==> x.1.len() < s.len(),
    decreases s.len(),
{
    lemma_for();
    if begins(s, "for="@) {
        lemma_value_len(suf(s, 4));
        if let Some((v, r)) = value(suf(s, 4)) {
            if r.len() > 0 {
                let r2 = trimmed_start(suf(r, 1), is_white());
                if r[0] == ',' && r2.len() < s.len() { lemma_for_len(r2, acc.push(v)); }
            }
        }
    }
}
pub proof fn lemma_begins_ascii(s: Seq<char>, p: Seq<char>)
    requires begins(s, p), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i] as u32) < 0x80,
    ensures forall|i: int| 0 <= i < p.len() ==> (#[trigger] s[i] as u32) < 0x80,
{
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] s[i] as u32) < 0x80 by {
        let a = s.subrange(0, p.len() as int);
        assert(lower(a)[i] == lower_char(a[i]));
        assert(lower(p)[i] == lower_char(p[i]));
        assert(a[i] == s[i]);
        assert((p[i] as u32) < 0x80);
        lemma_lower_ascii(a[i]);
        lemma_lower_ascii(p[i]);
    }
}
pub proof fn lemma_lower_ascii(c: char) ensures ((lower_char(c) as u32) < 0x80) == ((c as u32) < 0x80) {}
//@ item src/proxies/forwarded.rs struct ParseError
//@ item src/proxies/forwarded.rs struct Forwarded
pub open spec fn opt_text<'a>(c: Option<Cow<'a, str>>) -> Option<Seq<char>> { match c { Some(x) => Some(cowt(x)), None => None } }
impl<'a> Forwarded<'a> {
    pub open spec fn fields(self) -> F {
        F { by: opt_text(self.by), fors: self.forwarded_for@.map_values(|c: Cow<'a, str>| cowt(c)), host: opt_text(self.host), proto: opt_text(self.proto) }
    }
}
// TRUSTED: derive(Default) on Forwarded gives empty fields.
impl<'a> Default for Forwarded<'a> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.fields() == no_fields(), { Forwarded { by: None, forwarded_for: vec![], host: None, proto: None } }
}
// --- writing a value, and reading it back
pub open spec fn fmt_value(s: Seq<char>) -> Seq<char> {
    if token(s) == Some((s, Seq::<char>::empty())) { s } else { seq!['"'] + esc(s) + seq!['"'] }
}
// what is written for a printable text is read back as that text, up to where the text after it begins
pub proof fn lemma_value_roundtrip(v: Seq<char>, t: Seq<char>)
    requires printable(v), t.len() > 0 ==> !tchar_spec(t[0]),
    ensures value(fmt_value(v) + t) == Some((v, t)),
{
    let all = fmt_value(v) + t;
    if token(v) == Some((v, Seq::<char>::empty())) {
        lemma_first(v, not_tchar());
        assert(first(v, not_tchar()) == v.len()) by { assert(suf(v, first(v, not_tchar())).len() == 0); }
        assert forall|j: int| 0 <= j < v.len() implies !(not_tchar())(#[trigger] all[j]) by { assert(all[j] == v[j]); }
        lemma_first_is(all, not_tchar(), v.len() as int);
        assert(all.subrange(0, v.len() as int) =~= v);
        assert(suf(all, v.len() as int) =~= t);
    } else {
        assert(all[0] == '"');
        assert(not_tchar()('"')) by { let s = seq!['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~']; assert(!s.contains('"')); }
        lemma_first_is(all, not_tchar(), 0);
        lemma_esc_scan(v, t);
        assert(suf(all, 1) =~= esc(v) + seq!['"'] + t);
        let n = esc(v).len() as int + 1;
        assert(all.subrange(1, n) =~= esc(v));
        assert(suf(all, n + 1) =~= t);
    }
}
