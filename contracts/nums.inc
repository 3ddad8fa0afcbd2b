// Decimal numbers.
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn dec(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() as u32 - 48) } }
pub open spec fn unsigned(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s } }
// what std reads as an unsigned integer of at most `max`
pub open spec fn num(s: Seq<char>, max: int) -> Option<int> {
    let t = unsigned(s);
    if t.len() > 0 && digits(t) && dec(t) <= max { Some(dec(t)) } else { None }
}
//@ include digits.inc
pub proof fn lemma_dec_text(n: int)
    requires 0 <= n,
    ensures digits(dec_text(n)), dec(dec_text(n)) == n, dec_text(n).len() > 0, ascii_chars(dec_text(n)), forall|m: int| n <= m ==> #[trigger] num(dec_text(n), m) == Some(n),
    decreases n,
{
    let t = dec_text(n);
    if n < 10 { assert(dec(t.drop_last()) == 0) by { assert(t.drop_last() =~= seq![]); } }
    else { lemma_dec_text(n / 10); assert(t.drop_last() =~= dec_text(n / 10)); }
    assert(is_digit(t[0]));
}
// TRUSTED: std's integer parsing and printing.
pub struct ParseIntError;
#[verifier::external_body]
pub fn parse_u64(s: &str) -> (r: Result<u64, ParseIntError>)
    ensures match num(s@, u64::MAX as int) { Some(n) => r == Ok::<u64, ParseIntError>(n as u64), None => r is Err },
{ unimplemented!() }
impl Show for u64 { open spec fn shown(&self) -> Seq<char> { dec_text(*self as int) } }
