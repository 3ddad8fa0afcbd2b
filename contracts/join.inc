// Writing a list and reading it back.
pub open spec fn joined(xs: Seq<Seq<char>>) -> Seq<char> decreases xs.len() {
    if xs.len() == 0 { seq![] } else if xs.len() == 1 { xs[0] } else { joined(xs.drop_last()) + ", "@ + xs.last() }
}
pub proof fn lemma_joined_push(xs: Seq<Seq<char>>, y: Seq<char>)
    ensures joined(xs.push(y)) == if xs.len() == 0 { y } else { joined(xs) + ", "@ + y },
{ assert(xs.push(y).drop_last() =~= xs); }
pub proof fn lemma_fold_append<A, P>(xs: Seq<P>, ys: Seq<P>, acc: A, f: spec_fn(A, P) -> A)
    ensures fold(xs + ys, (xs + ys).len() as int, acc, f) == fold(ys, ys.len() as int, fold(xs, xs.len() as int, acc, f), f),
    decreases ys.len(),
{
    lemma_fold_prefix(xs + ys, xs, xs.len() as int, acc, f);
    if ys.len() == 0 { assert(xs + ys =~= xs); } else {
        let t = ys.drop_last();
        lemma_fold_append(xs, t, acc, f);
        lemma_fold_prefix(xs + ys, xs + t, (xs + t).len() as int, acc, f);
        lemma_fold_prefix(ys, t, t.len() as int, fold(xs, xs.len() as int, acc, f), f);
        assert((xs + ys)[(xs + ys).len() - 1] == ys.last());
    }
}
pub proof fn lemma_fold_prefix<A, P>(xs: Seq<P>, ys: Seq<P>, n: int, acc: A, f: spec_fn(A, P) -> A)
    requires n <= xs.len(), n <= ys.len(), forall|i: int| 0 <= i < n ==> xs[i] == ys[i],
    ensures fold(xs, n, acc, f) == fold(ys, n, acc, f),
    decreases n,
{ if n > 0 { lemma_fold_prefix(xs, ys, n - 1, acc, f); } }
pub proof fn lemma_trim_id(s: Seq<char>)
    requires s.len() > 0, !white(s[0]), !white(s.last()),
    ensures trim(s) == s,
{}
pub proof fn lemma_trim_space(s: Seq<char>)
    requires s.len() > 0, !white(s[0]), !white(s.last()),
    ensures trim(" "@ + s) == s,
{
    reveal_strlit(" ");
    broadcast use axiom_white;
    let t = " "@ + s;
    assert(t.last() == s.last());
    assert(trimmed_end(t, is_white()) == t);
    assert(t[0] == ' ');
    assert(t.drop_first() =~= s);
    assert(trimmed_start(t, is_white()) == trimmed_start(t.drop_first(), is_white()));
}
pub proof fn lemma_first_append(a: Seq<char>, b: Seq<char>, p: spec_fn(char) -> bool)
    ensures first(a + b, p) == if first(a, p) < a.len() { first(a, p) } else { a.len() + first(b, p) },
    decreases a.len(),
{
    lemma_first(a, p);
    if a.len() == 0 { assert(a + b =~= b); } else if !p(a[0]) {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        lemma_first_append(a.drop_first(), b, p);
        lemma_first(a.drop_first(), p);
    }
}
pub proof fn lemma_splits_append(a: Seq<char>, y: Seq<char>, c: char)
    ensures splits(a + seq![c] + y, c) == splits(a, c) + splits(y, c),
    decreases a.len(),
{
    let p = is_char(c);
    let t = a + seq![c] + y;
    lemma_first(a, p);
    assert(t =~= a + (seq![c] + y));
    lemma_first_append(a, seq![c] + y, p);
    let k = first(a, p);
    if k < a.len() {
        assert(t.subrange(0, k) =~= a.subrange(0, k));
        let r = a.subrange(k + 1, a.len() as int);
        lemma_splits_append(r, y, c);
        assert(t.subrange(k + 1, t.len() as int) =~= r + seq![c] + y);
        assert(splits(t, c) =~= seq![a.subrange(0, k)] + (splits(r, c) + splits(y, c)));
    } else {
        assert((seq![c] + y)[0] == c);
        assert(first(seq![c] + y, p) == 0);
        assert(first(t, p) == a.len());
        assert(t.subrange(0, a.len() as int) =~= a);
        assert(t.subrange(a.len() as int + 1, t.len() as int) =~= y);
    }
}
// A list is read as its elements are, when the elements contain no comma and leading space does not matter.
pub proof fn lemma_list_reads<A>(ts: Seq<Seq<char>>, z: Option<A>, f: spec_fn(Option<A>, Seq<char>) -> Option<A>)
    requires
        forall|i: int| 0 <= i < ts.len() ==> first(#[trigger] ts[i], is_char(',')) == ts[i].len(),
        forall|i: int, a: Option<A>| 0 <= i < ts.len() ==> #[trigger] f(a, " "@ + ts[i]) == f(a, ts[i]),
        forall|a: Option<A>| #[trigger] f(a, seq![]) == a,
    ensures
        fold(splits(joined(ts), ','), splits(joined(ts), ',').len() as int, z, f) == fold(ts, ts.len() as int, z, f),
    decreases ts.len(),
{
    if ts.len() == 0 {
        let e: Seq<char> = seq![];
        assert(splits(e, ',') =~= seq![e]);
        assert(fold(seq![e], 1, z, f) == f(fold(seq![e], 0, z, f), e));
    } else {
        let p = ts.drop_last();
        let y = ts.last();
        assert forall|i: int| 0 <= i < p.len() implies first(#[trigger] p[i], is_char(',')) == p[i].len() by { assert(p[i] == ts[i]); }
        assert forall|i: int, a: Option<A>| 0 <= i < p.len() implies #[trigger] f(a, " "@ + p[i]) == f(a, p[i]) by { assert(p[i] == ts[i]); }
        lemma_list_reads(p, z, f);
        lemma_fold_prefix(ts, p, p.len() as int, z, f);
        assert(first(ts[ts.len() - 1], is_char(',')) == y.len());
        if p.len() == 0 {
            assert(splits(y, ',') =~= seq![y]);
            assert(fold(seq![y], 1, z, f) == f(fold(seq![y], 0, z, f), y));
        } else {
            let a = joined(p);
            let w = " "@ + y;
            reveal_strlit(", "); reveal_strlit(" ");
            assert(a + ", "@ + y =~= a + seq![','] + w);
            lemma_splits_append(a, w, ',');
            lemma_first_append(" "@, y, is_char(','));
            lemma_first_is(" "@, is_char(','), 1);
            assert(splits(w, ',') =~= seq![w]);
            lemma_fold_append(splits(a, ','), seq![w], z, f);
            let m = fold(splits(a, ','), splits(a, ',').len() as int, z, f);
            assert(fold(seq![w], 1, m, f) == f(fold(seq![w], 0, m, f), w));
            assert(f(m, " "@ + ts[ts.len() - 1]) == f(m, ts[ts.len() - 1]));
        }
    }
}
// no leading or trailing white space
pub open spec fn tight(s: Seq<char>) -> bool { s.len() > 0 && !white(s[0]) && !white(s.last()) }
pub proof fn lemma_joined_tight(ts: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ts.len() ==> tight(#[trigger] ts[i]),
    ensures ts.len() > 0 ==> tight(joined(ts)), ts.len() == 0 ==> joined(ts).len() == 0, trim(joined(ts)) == joined(ts),
    decreases ts.len(),
{
    if ts.len() > 0 {
        let p = ts.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies tight(#[trigger] p[i]) by { assert(p[i] == ts[i]); }
        assert(tight(ts[ts.len() - 1]));
        lemma_joined_tight(p);
        if p.len() > 0 {
            let t = joined(ts);
            assert(t[0] == joined(p)[0]);
            assert(t.last() == ts.last().last());
        }
        lemma_trim_id(joined(ts));
    }
}
