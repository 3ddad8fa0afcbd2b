pub open spec fn vtexts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
//@ fn src/parse_utils.rs split_unquoted
//@ ret r
ensures vtexts(r@) =~= usplits(input@, separator),
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "input.char_indices()" => "indices(input, 0)"
//@ rewrite "&input[start..i]" => "str_range(input, start, i)"
//@ rewrite "&input[start..]" => "str_from(input, start)"
//@ at start
let ghost s = input@;
let ghost a = 0int;
proof { assert(suf(s, 0) =~= s); lemma_at_unique(s); }
//@ loop 0 it=it
invariant
    s == input@,
    it.seq().len() == s.len(),
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] it.seq()[i]).0 == off(s, i) && it.seq()[i].1 == s[i],
    0 <= a <= it.index@,
    at(s, start as int, a),
    escaped ==> quoted,
    uscan(suf(s, a), separator, false, false) == (it.index@ - a) + uscan(suf(s, it.index@), separator, quoted, escaped),
    vtexts(parts@) + usplits(suf(s, a), separator) == usplits(s, separator),
//@ at loop 0 before
proof { assert(vtexts(parts@) + usplits(suf(s, 0), separator) =~= usplits(s, separator)); }
//@ at loop 0 start
let ghost j = it.index@;
let ghost before = parts@;
let ghost was = (quoted, escaped);
proof {
    assert(suf(s, j).drop_first() =~= suf(s, j + 1));
    assert(suf(s, j)[0] == s[j]);
    assert(at(s, i as int, j));
    assert(at(s, i + clen(c), j + 1));
    lemma_off_mono(s, a, j);
    lemma_off_len(s, j + 1);
}
//@ at loop 0 end
proof {
    if parts@.len() > before.len() {
        let r = suf(s, a);
        assert(uscan(r, separator, false, false) == j - a);
        assert(r.subrange(0, j - a) =~= s.subrange(a, j));
        assert(r.subrange(j - a + 1, r.len() as int) =~= suf(s, j + 1));
        assert(vtexts(parts@) =~= vtexts(before).push(s.subrange(a, j)));
        assert(vtexts(before) + usplits(r, separator) =~= vtexts(parts@) + usplits(suf(s, j + 1), separator));
        a = j + 1;
    }
}
//@ at loop 0 after
proof {
    let r = suf(s, a);
    assert(suf(s, s.len() as int) =~= seq![]);
    assert(uscan(r, separator, false, false) == r.len());
    assert(usplits(r, separator) =~= seq![r]);
}
let ghost before = parts@;
//@ end
