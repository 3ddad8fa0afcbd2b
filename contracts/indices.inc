// TRUSTED: char_indices lists the characters with their byte offsets.
#[verifier::external_body]
pub fn indices(s: &str, skip: usize) -> (r: Vec<(usize, char)>)
    ensures
        off(s@, s@.len() as int) <= usize::MAX,
        skip <= s@.len() ==> r@.len() == s@.len() - skip,
        skip > s@.len() ==> r@.len() == 0,
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == off(s@, i + skip) && r@[i].1 == s@[i + skip],
{ s.char_indices().skip(skip).collect() }
pub proof fn lemma_at_unique(s: Seq<char>)
    ensures forall|n: int, j: int, k: int| #[trigger] at(s, n, j) && #[trigger] at(s, n, k) ==> j == k,
{
    assert forall|n: int, j: int, k: int| #[trigger] at(s, n, j) && #[trigger] at(s, n, k) implies j == k by {
        if j < k { lemma_off_mono(s, j, k); } else { lemma_off_mono(s, k, j); }
    }
}
pub proof fn lemma_off_len(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures off(s, k) <= off(s, s.len() as int),
{ lemma_off_mono(s, k, s.len() as int); }
