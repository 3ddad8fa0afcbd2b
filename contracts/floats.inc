// TRUSTED: f32 as IEEE 754 orders it. `unit` are the floats in 0.0..=1.0 without -0.0 and NaN.
pub uninterp spec fn unit(w: f32) -> bool;
pub uninterp spec fn fkey(w: f32) -> int;
pub uninterp spec fn fzero(w: f32) -> bool;
pub uninterp spec fn float_of(s: Seq<char>) -> Option<f32>;
pub broadcast axiom fn axiom_unit(w: f32)
    ensures #[trigger] unit(w) ==> fkey(w) >= 0 && (fzero(w) <==> fkey(w) == 0);
#[verifier::external_body]
pub fn f32_in_unit(w: f32) -> (r: bool) ensures r == unit(w) { unimplemented!() }
#[verifier::external_body]
pub fn f32_cmp(a: f32, b: f32) -> (r: Option<Ordering>)
    ensures unit(a) && unit(b) ==> r == Some(if fkey(a) < fkey(b) { Ordering::Less } else if fkey(a) > fkey(b) { Ordering::Greater } else { Ordering::Equal }),
{ unimplemented!() }
#[verifier::external_body]
pub fn is_zero(w: Option<f32>) -> (r: bool) ensures r == zero(w) { unimplemented!() }
pub struct ParseFloatError(u8);
#[verifier::external_body]
pub fn f32_parse(s: &str) -> (r: Result<f32, ParseFloatError>)
    ensures match r { Ok(w) => float_of(s@) == Some(w), Err(_) => float_of(s@) is None },
{ unimplemented!() }
pub open spec fn zero(w: Option<f32>) -> bool { match w { Some(x) => fzero(x), None => false } }
// unweighted entries come last
pub open spec fn wkey(w: Option<f32>) -> int { match w { Some(x) => fkey(x), None => -1 } }
pub open spec fn wok(w: Option<f32>) -> bool { match w { Some(x) => unit(x), None => true } }
pub open spec fn weight_of(s: Seq<char>) -> Option<f32> {
    let t = trim(s);
    if t.len() >= 2 && (t[0] == 'q' || t[0] == 'Q') && t[1] == '=' { float_of(t.subrange(2, t.len() as int)) } else { None }
}
#[verifier::external_body]
pub fn str_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r {
        Some(t) => s@.len() >= p@.len() && s@.subrange(0, p@.len() as int) == p@ && t@ == s@.subrange(p@.len() as int, s@.len() as int),
        None => s@.len() < p@.len() || s@.subrange(0, p@.len() as int) != p@,
    },
{ s.strip_prefix(p) }
pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { Some(Ok(v)) => Ok::<Option<T>, E>(Some(v)), Some(Err(e)) => Err(e), None => Ok(None) });
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures match o { Some(_) => r == o, None => f.ensures((), r) };
