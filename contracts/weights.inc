//@ include floats.inc
//@ fn src/utils/mod.rs parse_weight
//@ ret r
ensures
    match weight_of(s@) { Some(w) => r == Ok::<f32, Error>(w), None => r is Err && (r->Err_0).status == StatusCode::BadRequest },
//@ rewrite "s.trim()" => "str_trim(s)"
//@ rewrite "s.strip_prefix(\"q=\")" => "str_strip_prefix(s, \"q=\")"
//@ rewrite "s.strip_prefix(\"Q=\")" => "str_strip_prefix(s, \"Q=\")"
//@ rewrite "f32::from_str(s)" => "f32_parse(s)"
//@ rewrite "err.set_status(StatusCode::BadRequest)" => "set_status_code(&mut err, StatusCode::BadRequest)"
//@ closure 0 types="" ret="o: Option<&str>"
ensures match o {
        Some(t) => s@.len() >= 2 && s@.subrange(0, 2) == "Q="@ && t@ == s@.subrange(2, s@.len() as int),
        None => s@.len() < 2 || s@.subrange(0, 2) != "Q="@,
    },
//@ at start
proof { reveal_strlit("q="); reveal_strlit("Q="); }
//@ at stmt 1
proof {
    reveal_strlit("q="); reveal_strlit("Q=");
    if s@.len() >= 2 {
        let p = s@.subrange(0, 2);
        assert(p[0] == s@[0] && p[1] == s@[1]);
        assert(s@[0] == 'q' && s@[1] == '=' ==> p =~= "q="@);
        assert(s@[0] == 'Q' && s@[1] == '=' ==> p =~= "Q="@);
    }
}
//@ end
// --- ordering by weight
pub open spec fn perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|k: int| 0 <= k < n ==> 0 <= #[trigger] p[k] < n
    &&& forall|i: int| 0 <= i < n ==> #[trigger] hit(p, i)
}
pub open spec fn hit(p: Seq<int>, i: int) -> bool { exists|k: int| 0 <= k < p.len() && #[trigger] p[k] == i }
pub trait Weighted: Sized {
    spec fn ok(&self) -> bool;
    spec fn key(&self) -> int;
    fn partial_cmp(&self, other: &Self) -> (r: Option<Ordering>)
        requires self.ok(), other.ok(),
        ensures
            self.key() < other.key() <==> r == Some(Ordering::Less),
            self.key() > other.key() <==> r == Some(Ordering::Greater);
}
pub open spec fn before<T: Weighted>(a: (usize, T), b: (usize, T)) -> bool { a.1.key() > b.1.key() || (a.1.key() == b.1.key() && a.0 > b.0) }
// f[k] is o[p[k]]; heavier first, the later one first among equals
pub open spec fn by_weight<T: Weighted>(o: Seq<T>, f: Seq<T>, p: Seq<int>) -> bool {
    &&& perm(p, o.len() as int)
    &&& f.len() == o.len()
    &&& forall|k: int| 0 <= k < f.len() ==> f[k] == o[#[trigger] p[k]]
    &&& forall|k: int, l: int| 0 <= k < l < f.len() ==> f[k].key() > f[l].key() || (f[k].key() == f[l].key() && #[trigger] p[k] > #[trigger] p[l])
}
// TRUSTED: cloning an entry gives an equal entry; enumerate numbers from zero.
#[verifier::external_body]
pub fn cloned_enumerated<T>(v: &Vec<T>) -> (r: Vec<(usize, T)>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == v@[i],
{ unimplemented!() }
#[verifier::external_body]
pub fn seconds<T>(v: Vec<(usize, T)>) -> (r: Vec<T>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == v@[i].1,
{ v.into_iter().map(|(_, t)| t).collect() }
// TRUSTED: slice::sort_unstable_by, for a comparator that is total on the elements.
#[verifier::external_body]
pub fn sort_by<X, F: Fn(&X, &X) -> Ordering>(v: &mut Vec<X>, Ghost(lt): Ghost<spec_fn(X, X) -> bool>, f: F)
    requires
        forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> f.requires((&#[trigger] old(v)@[i], &#[trigger] old(v)@[j])),
        forall|i: int, j: int, o: Ordering| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() && #[trigger] f.ensures((&old(v)@[i], &old(v)@[j]), o)
            ==> ((o == Ordering::Less) <==> lt(old(v)@[i], old(v)@[j])) && (o == Ordering::Greater <==> lt(old(v)@[j], old(v)@[i])),
        forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() && i != j ==> #[trigger] lt(old(v)@[i], old(v)@[j]) != #[trigger] lt(old(v)@[j], old(v)@[i]),
    ensures
        exists|p: Seq<int>| perm(p, old(v)@.len() as int) && (forall|k: int| 0 <= k < old(v)@.len() ==> final(v)@[k] == old(v)@[#[trigger] p[k]]),
        final(v)@.len() == old(v)@.len(),
        forall|k: int, l: int| 0 <= k < l < final(v)@.len() ==> lt(#[trigger] final(v)@[k], #[trigger] final(v)@[l]),
{ unimplemented!() }
// TRUSTED: slice iter().any
#[verifier::external_body]
pub fn any_of<T, F: Fn(&T) -> bool>(v: &Vec<T>, Ghost(p): Ghost<spec_fn(T) -> bool>, f: F) -> (r: bool)
    requires
        forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
        forall|i: int, b: bool| 0 <= i < v@.len() && #[trigger] f.ensures((&v@[i],), b) ==> b == p(v@[i]),
    ensures r == exists|i: int| 0 <= i < v@.len() && p(#[trigger] v@[i]),
{ v.iter().any(|x| f(x)) }
pub open spec fn ordered<T: Weighted>(o: Seq<T>, f: Seq<T>) -> bool { exists|p: Seq<int>| #[trigger] by_weight(o, f, p) }
//@ fn src/utils/mod.rs sort_by_weight
requires forall|i: int| 0 <= i < old(props)@.len() ==> (#[trigger] old(props)@[i]).ok(),
ensures ordered(old(props)@, final(props)@),
//@ rewrite "<T: PartialOrd + Clone>" => "<T: Weighted>"
//@ rewrite "props.iter().cloned().enumerate().collect()" => "cloned_enumerated(props)"
//@ rewrite "arr.sort_unstable_by(" => "let ghost a0 = arr@; sort_by(&mut arr, Ghost(|a: (usize, T), b: (usize, T)| before(a, b)), "
//@ rewrite "arr.into_iter().map(|(_, t)| t).collect::<Vec<T>>()" => "seconds(arr)"
//@ closure 0 types="&(usize, T);&(usize, T)" ret="o: Ordering"
requires a.1.ok(), b.1.ok(),
ensures (o == Ordering::Less <==> before(*a, *b)), (o == Ordering::Greater <==> before(*b, *a)),
//@ at end
proof {
    let p = choose|p: Seq<int>| perm(p, a0.len() as int) && (forall|k: int| 0 <= k < a0.len() ==> arr0[k] == a0[#[trigger] p[k]]);
    assert forall|k: int, l: int| 0 <= k < l < props@.len() implies props@[k].key() > props@[l].key() || (props@[k].key() == props@[l].key() && #[trigger] p[k] > #[trigger] p[l]) by {
        assert(before(arr0[k], arr0[l]));
        assert(arr0[k] == a0[p[k]]);
        assert(arr0[l] == a0[p[l]]);
    }
    assert forall|k: int| 0 <= k < props@.len() implies props@[k] == old(props)@[#[trigger] p[k]] by { assert(arr0[k] == a0[p[k]]); }
    assert(by_weight(old(props)@, props@, p));
}
//@ at stmt 2
let ghost arr0 = arr@;
//@ end
