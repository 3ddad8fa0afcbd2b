// --- WHATWG definitions
pub open spec fn token(c: char) -> bool {
    ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9')
    || seq!['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~'].contains(c)
}
pub open spec fn qtoken(c: char) -> bool { c == '\t' || (0x20 <= c as u32 && c as u32 <= 0x7E) || (0x80 <= c as u32 && c as u32 <= 0xFF) }
pub open spec fn ws(c: char) -> bool { c == '\n' || c == '\r' || c == '\t' || c == ' ' }
pub open spec fn ws_p() -> spec_fn(char) -> bool { |c: char| ws(c) }
pub open spec fn semi() -> spec_fn(char) -> bool { is_char(';') }
pub open spec fn slash() -> spec_fn(char) -> bool { is_char('/') }
pub open spec fn name_end() -> spec_fn(char) -> bool { in_set(seq![';', '=']) }
pub open spec fn all(s: Seq<char>, p: spec_fn(char) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) }
pub open spec fn tokens(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> token(#[trigger] s[i]) }
pub open spec fn qtokens(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> qtoken(#[trigger] s[i]) }
pub open spec fn rest(s: Seq<char>, k: int) -> Seq<char> { s.subrange(k, s.len() as int) }

// the text after an opening quote: unescaped content, and what follows the closing quote
pub open spec fn quoted(s: Seq<char>) -> (Seq<char>, Seq<char>) decreases s.len() {
    if s.len() == 0 { (seq![], seq![]) }
    else if s[0] == '"' { (seq![], rest(s, 1)) }
    else if s[0] == '\\' {
        if s.len() == 1 { (seq!['\\'], seq![]) }
        else { let q = quoted(rest(s, 2)); (seq![s[1]] + q.0, q.1) }
    }
    else { let q = quoted(rest(s, 1)); (seq![s[0]] + q.0, q.1) }
}
pub open spec fn plain(c: char) -> bool { c != '"' && c != '\\' }
pub proof fn lemma_quoted(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> plain(#[trigger] s[i]),
    ensures quoted(s).0 == s.subrange(0, k) + quoted(rest(s, k)).0, quoted(s).1 == quoted(rest(s, k)).1,
    decreases k,
{
    if k == 0 { assert(rest(s, 0) =~= s); assert(s.subrange(0, 0) + quoted(s).0 =~= quoted(s).0); }
    else {
        assert(plain(s[0]));
        let t = rest(s, 1);
        assert forall|i: int| 0 <= i < k - 1 implies plain(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
        lemma_quoted(t, k - 1);
        assert(rest(t, k - 1) =~= rest(s, k));
        assert(seq![s[0]] + (t.subrange(0, k - 1) + quoted(rest(s, k)).0) =~= s.subrange(0, k) + quoted(rest(s, k)).0);
    }
}

// parameters so far: charset=utf-8 is kept apart from the list
pub struct Ps { pub list: Seq<(Seq<char>, Seq<char>)>, pub utf8: bool }
pub open spec fn known(p: Ps, n: Seq<char>) -> bool {
    (p.utf8 && n == "charset"@) || exists|i: int| 0 <= i < p.list.len() && #[trigger] p.list[i].0 == n
}
// step 10: the first well-formed parameter of each name counts
pub open spec fn add(p: Ps, n: Seq<char>, v: Seq<char>) -> Ps {
    if tokens(n) && qtokens(v) && !known(p, n) {
        if n == "charset"@ && v == "utf-8"@ { Ps { utf8: true, ..p } } else { Ps { list: p.list.push((n, v)), ..p } }
    } else { p }
}
// step 11: s is empty or starts at a ';'
pub open spec fn parameters(s: Seq<char>, p: Ps) -> Ps decreases s.len() {
    if s.len() == 0 { p } else {
        let a = trimmed_start(rest(s, 1), ws_p());
        let k = first(a, name_end());
        let name = lower(a.subrange(0, k));
        let b = rest(a, k);
        if b.len() == 0 { p }
        else if b[0] == ';' { if b.len() < s.len() { parameters(b, p) } else { p } }
        else {
            let c = rest(b, 1);
            if c.len() > 0 && c[0] == '"' {
                let q = quoted(rest(c, 1));
                let d = rest(q.1, first(q.1, semi()));
                if d.len() < s.len() { parameters(d, add(p, name, q.0)) } else { p }
            } else {
                let v = trimmed_end(c.subrange(0, first(c, semi())), ws_p());
                let d = rest(c, first(c, semi()));
                if d.len() < s.len() { parameters(d, if v.len() == 0 { p } else { add(p, name, v) }) } else { p }
            }
        }
    }
}
pub proof fn lemma_trims(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures trimmed_start(s, p).len() <= s.len(), trimmed_end(s, p).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_trims(s.drop_first(), p); lemma_trims(s.drop_last(), p); }
}
pub proof fn lemma_quoted_len(s: Seq<char>)
    ensures quoted(s).1.len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { if s.len() > 1 { lemma_quoted_len(rest(s, 2)); } lemma_quoted_len(rest(s, 1)); }
}
pub open spec fn ps_of(l: Seq<(ParamName, ParamValue)>, utf8: bool) -> Ps {
    Ps { list: l.map_values(|x: (ParamName, ParamValue)| (cowv(x.0.0), cowv(x.1.0))), utf8 }
}
pub open spec fn denotes(s: Seq<char>, m: Mime) -> bool {
    let t = trimmed_end(trimmed_start(s, ws_p()), ws_p());
    let i = first(t, slash());
    let base = t.subrange(0, i);
    let u = rest(t, i + 1);
    let j = first(u, semi());
    let sub = trimmed_end(u.subrange(0, j), ws_p());
    &&& i < t.len()
    &&& tokens(base) && tokens(sub)
    &&& cowv(m.basetype) == lower(base)
    &&& cowv(m.subtype) == lower(sub)
    &&& cowv(m.essence) == lower(base) + seq!['/'] + lower(sub)
    &&& ps_of(m.params@, m.is_utf8) == parameters(rest(u, j), Ps { list: seq![], utf8: false })
}
pub open spec fn well_formed(s: Seq<char>) -> bool {
    let t = trimmed_end(trimmed_start(s, ws_p()), ws_p());
    let i = first(t, slash());
    let u = rest(t, i + 1);
    i < t.len() && tokens(t.subrange(0, i)) && tokens(trimmed_end(u.subrange(0, first(u, semi())), ws_p()))
}
