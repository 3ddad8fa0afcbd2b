// Hexadecimal numbers.
pub open spec fn is_hex(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn hexes(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
pub open spec fn hex_of(c: char) -> int {
    if '0' <= c && c <= '9' { c as u32 - 48 } else if 'a' <= c && c <= 'f' { c as u32 - 87 } else { c as u32 - 55 }
}
pub open spec fn hex(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hex(s.drop_last()) * 16 + hex_of(s.last()) } }
// what std reads as an unsigned hexadecimal integer of at most `max`
pub open spec fn hex_num(s: Seq<char>, max: int) -> Option<int> {
    let t = unsigned(s);
    if t.len() > 0 && hexes(t) && hex(t) <= max { Some(hex(t)) } else { None }
}
pub open spec fn hex_digit(n: int) -> char { if n < 10 { ((n + 48) as u8) as char } else { ((n + 87) as u8) as char } }
// n < 16^w in w digits
pub open spec fn hex_text(n: int, w: int) -> Seq<char> decreases w { if w <= 0 { seq![] } else { hex_text(n / 16, w - 1).push(hex_digit(n % 16)) } }
pub open spec fn pow16(w: int) -> int decreases w { if w <= 0 { 1 } else { 16 * pow16(w - 1) } }
pub proof fn lemma_hex_text(n: int, w: int)
    requires 0 <= n < pow16(w), 0 <= w,
    ensures hexes(hex_text(n, w)), hex(hex_text(n, w)) == n, hex_text(n, w).len() == w, w > 0 ==> forall|m: int| n <= m ==> #[trigger] hex_num(hex_text(n, w), m) == Some(n),
    decreases w,
{
    if w > 0 {
        assert(n / 16 < pow16(w - 1)) by (nonlinear_arith) requires 0 <= n < 16 * pow16(w - 1);
        lemma_hex_text(n / 16, w - 1);
        let t = hex_text(n, w);
        assert(t.drop_last() =~= hex_text(n / 16, w - 1));
        assert(is_hex(t[w - 1]));
        assert forall|i: int| 0 <= i < t.len() implies is_hex(#[trigger] t[i]) by { if i < w - 1 { assert(t[i] == hex_text(n / 16, w - 1)[i]); } }
        assert(is_hex(t[0]));
    }
}
pub proof fn lemma_pow16() ensures pow16(2) == 0x100, pow16(16) == 0x1_0000_0000_0000_0000, pow16(32) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{
    assert(pow16(2) == 0x100) by (compute);
    assert(pow16(16) == 0x1_0000_0000_0000_0000) by (compute);
    assert(pow16(32) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
}
// TRUSTED: std's hexadecimal parsing and printing.
#[verifier::external_body]
pub fn u8_from_radix(s: &str, radix: u32) -> (r: Result<u8, ParseIntError>)
    requires radix == 16,
    ensures match hex_num(s@, u8::MAX as int) { Some(n) => r == Ok::<u8, ParseIntError>(n as u8), None => r is Err }, { unimplemented!() }
#[verifier::external_body]
pub fn u64_from_radix(s: &str, radix: u32) -> (r: Result<u64, ParseIntError>)
    requires radix == 16,
    ensures match hex_num(s@, u64::MAX as int) { Some(n) => r == Ok::<u64, ParseIntError>(n as u64), None => r is Err }, { unimplemented!() }
#[verifier::external_body]
pub fn u128_from_radix(s: &str, radix: u32) -> (r: Result<u128, ParseIntError>)
    requires radix == 16,
    ensures match hex_num(s@, u128::MAX as int) { Some(n) => r == Ok::<u128, ParseIntError>(n as u128), None => r is Err }, { unimplemented!() }
pub trait HexSink: Sink {
    fn vx_show_02x(&mut self, x: &u8) ensures final(self).text() == old(self).text() + hex_text(*x as int, 2);
    fn vx_show_016x(&mut self, x: &u64) ensures final(self).text() == old(self).text() + hex_text(*x as int, 16);
    fn vx_show_032x(&mut self, x: &u128) ensures final(self).text() == old(self).text() + hex_text(*x as int, 32);
}
impl<'a> HexSink for Formatter<'a> {
    #[verifier::external_body]
    fn vx_show_02x(&mut self, x: &u8) { unimplemented!() }
    #[verifier::external_body]
    fn vx_show_016x(&mut self, x: &u64) { unimplemented!() }
    #[verifier::external_body]
    fn vx_show_032x(&mut self, x: &u128) { unimplemented!() }
}
