// Splitting on a separator outside quoted strings.
// length of the first piece, read from inside (q) or outside a quoted string, after a backslash (e) or not
pub open spec fn uscan(s: Seq<char>, c: char, q: bool, e: bool) -> int decreases s.len() {
    if s.len() == 0 { 0 } else {
        let t = s.drop_first();
        if e { 1 + uscan(t, c, q, false) }
        else if s[0] == '"' { 1 + uscan(t, c, !q, false) }
        else if q { 1 + uscan(t, c, q, s[0] == '\\') }
        else if s[0] == c { 0 }
        else { 1 + uscan(t, c, q, false) }
    }
}
pub open spec fn usplits(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    let k = uscan(s, c, false, false);
    if 0 <= k < s.len() { seq![s.subrange(0, k)] + usplits(s.subrange(k + 1, s.len() as int), c) } else { seq![s] }
}
pub proof fn lemma_uscan(s: Seq<char>, c: char, q: bool, e: bool)
    ensures 0 <= uscan(s, c, q, e) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { let t = s.drop_first(); lemma_uscan(t, c, q, false); lemma_uscan(t, c, !q, false); lemma_uscan(t, c, q, s[0] == '\\'); }
}
// whether the text ends inside a quoted string, and after a backslash
pub open spec fn uend(s: Seq<char>, q: bool, e: bool) -> (bool, bool) decreases s.len() {
    if s.len() == 0 { (q, e) } else {
        let t = s.drop_first();
        if e { uend(t, q, false) } else if s[0] == '"' { uend(t, !q, false) } else if q { uend(t, q, s[0] == '\\') } else { uend(t, q, false) }
    }
}
// quotes are closed and c does not occur outside of them
pub open spec fn closed(s: Seq<char>, c: char) -> bool { uend(s, false, false) == (false, false) && uscan(s, c, false, false) == s.len() }
pub proof fn lemma_u_append(a: Seq<char>, b: Seq<char>, c: char, q: bool, e: bool)
    ensures
        uscan(a + b, c, q, e) == if uscan(a, c, q, e) < a.len() { uscan(a, c, q, e) } else { a.len() + uscan(b, c, uend(a, q, e).0, uend(a, q, e).1) },
        uend(a + b, q, e) == uend(b, uend(a, q, e).0, uend(a, q, e).1),
    decreases a.len(),
{
    lemma_uscan(a, c, q, e);
    if a.len() == 0 { assert(a + b =~= b); } else {
        let t = a.drop_first();
        assert((a + b).drop_first() =~= t + b);
        lemma_u_append(t, b, c, q, false); lemma_u_append(t, b, c, !q, false); lemma_u_append(t, b, c, q, a[0] == '\\');
        lemma_uscan(t, c, q, false); lemma_uscan(t, c, !q, false); lemma_uscan(t, c, q, a[0] == '\\');
    }
}
// after a separator outside of quotes the state starts afresh
pub proof fn lemma_uend_after(a: Seq<char>, c: char, q: bool, e: bool)
    requires uscan(a, c, q, e) < a.len(), c != '"', !q ==> !e,
    ensures uend(a, q, e) == uend(a.subrange(uscan(a, c, q, e) + 1, a.len() as int), false, false),
    decreases a.len(),
{
    let t = a.drop_first();
    let k = uscan(a, c, q, e);
    lemma_uscan(t, c, q, false); lemma_uscan(t, c, !q, false); lemma_uscan(t, c, q, a[0] == '\\');
    lemma_uscan(a, c, q, e);
    if k > 0 || e || q || a[0] == '"' {
        assert(k > 0);
        assert(a.subrange(k + 1, a.len() as int) =~= t.subrange(k, t.len() as int));
        if e { lemma_uend_after(t, c, q, false); } else if a[0] == '"' { lemma_uend_after(t, c, !q, false); } else if q { lemma_uend_after(t, c, q, a[0] == '\\'); } else { lemma_uend_after(t, c, q, false); }
    } else { assert(a.subrange(1, a.len() as int) =~= t); }
}
pub proof fn lemma_usplits_append(a: Seq<char>, y: Seq<char>, c: char)
    requires uend(a, false, false) == (false, false), c != '"',
    ensures usplits(a + seq![c] + y, c) == usplits(a, c) + usplits(y, c),
    decreases a.len(),
{
    let t = a + seq![c] + y;
    let b = seq![c] + y;
    assert(t =~= a + b);
    lemma_u_append(a, b, c, false, false);
    lemma_uscan(a, c, false, false);
    let k = uscan(a, c, false, false);
    assert(b[0] == c);
    assert(uscan(b, c, false, false) == 0);
    if k < a.len() {
        lemma_uend_after(a, c, false, false);
        let r = a.subrange(k + 1, a.len() as int);
        lemma_usplits_append(r, y, c);
        assert(t.subrange(0, k) =~= a.subrange(0, k));
        assert(t.subrange(k + 1, t.len() as int) =~= r + seq![c] + y);
        assert(usplits(t, c) =~= seq![a.subrange(0, k)] + (usplits(r, c) + usplits(y, c)));
    } else {
        assert(t.subrange(0, a.len() as int) =~= a);
        assert(t.subrange(a.len() as int + 1, t.len() as int) =~= y);
    }
}
pub open spec fn unquotedc(c: char, d: char) -> bool { d != c && d != '"' }
pub proof fn lemma_closed_plain(s: Seq<char>, c: char)
    requires forall|i: int| 0 <= i < s.len() ==> unquotedc(c, #[trigger] s[i]),
    ensures closed(s, c),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies unquotedc(c, #[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
        lemma_closed_plain(t, c);
        assert(unquotedc(c, s[0]));
    }
}
pub proof fn lemma_closed_append(a: Seq<char>, b: Seq<char>, c: char)
    requires closed(a, c), closed(b, c),
    ensures closed(a + b, c),
{ lemma_u_append(a, b, c, false, false); lemma_uscan(a, c, false, false); }
pub proof fn lemma_esc_inside(s: Seq<char>, c: char)
    ensures uscan(esc(s), c, true, false) == esc(s).len(), uend(esc(s), true, false) == (true, false),
    decreases s.len(),
{
    if s.len() > 0 {
        let u = suf(s, 1);
        lemma_esc_inside(u, c);
        let a = esc_char(s[0]);
        lemma_u_append(a, esc(u), c, true, false);
        reveal_with_fuel(uscan, 3); reveal_with_fuel(uend, 3);
        if a.len() == 2 { assert(a.drop_first() =~= seq![s[0]]); assert(seq![s[0]].drop_first() =~= seq![]); } else { assert(a.drop_first() =~= seq![]); }
    }
}
// a text written as a quoted string has no separator outside of quotes
pub proof fn lemma_closed_quoted(s: Seq<char>, c: char)
    requires c != '"',
    ensures closed(seq!['"'] + esc(s) + seq!['"'], c),
{
    let e = esc(s);
    let q = seq!['"'];
    lemma_esc_inside(s, c);
    lemma_u_append(e, q, c, true, false);
    reveal_with_fuel(uscan, 2); reveal_with_fuel(uend, 2);
    assert((q + e + q).drop_first() =~= e + q);
    assert(q.drop_first() =~= seq![]);
}
// A list is read as its elements are, when the elements are closed and leading space does not matter.
pub proof fn lemma_ulist_reads<A>(ts: Seq<Seq<char>>, z: Option<A>, f: spec_fn(Option<A>, Seq<char>) -> Option<A>)
    requires
        forall|i: int| 0 <= i < ts.len() ==> closed(#[trigger] ts[i], ','),
        forall|i: int, a: Option<A>| 0 <= i < ts.len() ==> #[trigger] f(a, " "@ + ts[i]) == f(a, ts[i]),
        forall|a: Option<A>| #[trigger] f(a, seq![]) == a,
    ensures
        fold(usplits(joined(ts), ','), usplits(joined(ts), ',').len() as int, z, f) == fold(ts, ts.len() as int, z, f),
        uend(joined(ts), false, false) == (false, false),
    decreases ts.len(),
{
    if ts.len() == 0 {
        let e: Seq<char> = seq![];
        assert(usplits(e, ',') =~= seq![e]);
        assert(fold(seq![e], 1, z, f) == f(fold(seq![e], 0, z, f), e));
    } else {
        let p = ts.drop_last();
        let y = ts.last();
        assert forall|i: int| 0 <= i < p.len() implies closed(#[trigger] p[i], ',') by { assert(p[i] == ts[i]); }
        assert forall|i: int, a: Option<A>| 0 <= i < p.len() implies #[trigger] f(a, " "@ + p[i]) == f(a, p[i]) by { assert(p[i] == ts[i]); }
        lemma_ulist_reads(p, z, f);
        lemma_fold_prefix(ts, p, p.len() as int, z, f);
        assert(closed(ts[ts.len() - 1], ','));
        if p.len() == 0 {
            assert(usplits(y, ',') =~= seq![y]);
            assert(fold(seq![y], 1, z, f) == f(fold(seq![y], 0, z, f), y));
        } else {
            let a = joined(p);
            let w = " "@ + y;
            reveal_strlit(", "); reveal_strlit(" ");
            assert(a + ", "@ + y =~= a + seq![','] + w);
            lemma_usplits_append(a, w, ',');
            lemma_closed_plain(" "@, ',');
            lemma_closed_append(" "@, y, ',');
            let s1 = seq![','];
            lemma_u_append(a, s1, ',', false, false);
            lemma_u_append(a + s1, w, ',', false, false);
            reveal_with_fuel(uend, 2);
            assert(s1.drop_first() =~= seq![]);
            assert(usplits(w, ',') =~= seq![w]);
            lemma_fold_append(usplits(a, ','), seq![w], z, f);
            let m = fold(usplits(a, ','), usplits(a, ',').len() as int, z, f);
            assert(fold(seq![w], 1, m, f) == f(fold(seq![w], 0, m, f), w));
            assert(f(m, " "@ + ts[ts.len() - 1]) == f(m, ts[ts.len() - 1]));
        }
    }
}
