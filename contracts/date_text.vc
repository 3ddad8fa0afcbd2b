//@ # P06: the texts of HTTP dates.
//@ include date_common.inc
// ------------------------------------------------ texts
pub open spec fn day3(a: u8, b: u8, c: u8) -> int {
    if a == 77 && b == 111 && c == 110 { 1 } else if a == 84 && b == 117 && c == 101 { 2 } else if a == 87 && b == 101 && c == 100 { 3 } else if a == 84 && b == 104 && c == 117 { 4 } else if a == 70 && b == 114 && c == 105 { 5 } else if a == 83 && b == 97 && c == 116 { 6 } else if a == 83 && b == 117 && c == 110 { 7 } else { 0 }
}
pub open spec fn month3(a: u8, b: u8, c: u8) -> int {
    if a == 74 && b == 97 && c == 110 { 1 } else if a == 70 && b == 101 && c == 98 { 2 } else if a == 77 && b == 97 && c == 114 { 3 } else if a == 65 && b == 112 && c == 114 { 4 } else if a == 77 && b == 97 && c == 121 { 5 } else if a == 74 && b == 117 && c == 110 { 6 } else if a == 74 && b == 117 && c == 108 { 7 } else if a == 65 && b == 117 && c == 103 { 8 } else if a == 83 && b == 101 && c == 112 { 9 } else if a == 79 && b == 99 && c == 116 { 10 } else if a == 78 && b == 111 && c == 118 { 11 } else if a == 68 && b == 101 && c == 99 { 12 } else { 0 }
}
pub open spec fn day_name(d: int) -> Seq<u8> {
    if d == 1 { seq![77u8, 111u8, 110u8, 100u8, 97u8, 121u8] } else if d == 2 { seq![84u8, 117u8, 101u8, 115u8, 100u8, 97u8, 121u8] } else if d == 3 { seq![87u8, 101u8, 100u8, 110u8, 101u8, 115u8, 100u8, 97u8, 121u8] } else if d == 4 { seq![84u8, 104u8, 117u8, 114u8, 115u8, 100u8, 97u8, 121u8] } else if d == 5 { seq![70u8, 114u8, 105u8, 100u8, 97u8, 121u8] } else if d == 6 { seq![83u8, 97u8, 116u8, 117u8, 114u8, 100u8, 97u8, 121u8] } else { seq![83u8, 117u8, 110u8, 100u8, 97u8, 121u8] }
}
pub open spec fn day_prefix(d: int) -> Seq<u8> { day_name(d) + seq![44u8, 32u8] }
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) == p }
proof fn lemma_prefixes(s: Seq<u8>, d: int, e: int)
    requires 1 <= d <= 7, 1 <= e <= 7, starts(s, day_prefix(d)), starts(s, day_prefix(e))
    ensures d == e
{
    let p = day_prefix(d); let q = day_prefix(e);
    assert(s.subrange(0, p.len() as int)[0] == s[0] && s.subrange(0, p.len() as int)[1] == s[1]);
    assert(s.subrange(0, q.len() as int)[0] == s[0] && s.subrange(0, q.len() as int)[1] == s[1]);
}
pub open spec fn num(s: Seq<u8>, i: int, j: int, v: int) -> bool { digits(s.subrange(i, j)) && dec(s.subrange(i, j)) == v }
pub open spec fn clock(s: Seq<u8>, i: int, d: HttpDate) -> bool {
    num(s, i, i + 2, d.hour as int) && s[i + 2] == 58 && num(s, i + 3, i + 5, d.minute as int) && s[i + 5] == 58 && num(s, i + 6, i + 8, d.second as int)
}
pub open spec fn gmt(s: Seq<u8>, i: int) -> bool { s[i] == 32 && s[i + 1] == 71 && s[i + 2] == 77 && s[i + 3] == 84 }
// `Sun, 06 Nov 1994 08:49:37 GMT`
pub open spec fn imf(s: Seq<u8>, d: HttpDate) -> bool {
    &&& s.len() == 29
    &&& d.week_day > 0 && day3(s[0], s[1], s[2]) == d.week_day && s[3] == 44 && s[4] == 32
    &&& num(s, 5, 7, d.day as int) && s[7] == 32
    &&& d.month > 0 && month3(s[8], s[9], s[10]) == d.month && s[11] == 32
    &&& num(s, 12, 16, d.year as int) && s[16] == 32
    &&& clock(s, 17, d) && gmt(s, 25)
}
// `Sunday, 06-Nov-94 08:49:37 GMT`, the year of which is 1970 to 2069
pub open spec fn rfc850(s: Seq<u8>, d: HttpDate) -> bool {
    let n = day_name(d.week_day as int).len() as int;
    &&& 1 <= d.week_day <= 7
    &&& s.len() == n + 24
    &&& starts(s, day_prefix(d.week_day as int))
    &&& num(s, n + 2, n + 4, d.day as int) && s[n + 4] == 45
    &&& d.month > 0 && month3(s[n + 5], s[n + 6], s[n + 7]) == d.month && s[n + 8] == 45
    &&& 1970 <= d.year <= 2069 && num(s, n + 9, n + 11, d.year as int % 100) && s[n + 11] == 32
    &&& clock(s, n + 12, d) && gmt(s, n + 20)
}
// `Sun Nov  6 08:49:37 1994`
pub open spec fn asctime(s: Seq<u8>, d: HttpDate) -> bool {
    &&& s.len() == 24
    &&& d.week_day > 0 && day3(s[0], s[1], s[2]) == d.week_day && s[3] == 32
    &&& d.month > 0 && month3(s[4], s[5], s[6]) == d.month && s[7] == 32
    &&& (if s[8] == 32 { num(s, 9, 10, d.day as int) } else { num(s, 8, 10, d.day as int) }) && s[10] == 32
    &&& clock(s, 11, d) && s[19] == 32
    &&& num(s, 20, 24, d.year as int)
}
proof fn lemma_dec2(s: Seq<u8>) requires s.len() == 2, digits(s) ensures dec(s) == (s[0] - 48) * 10 + (s[1] - 48), dec(s) <= 99
{ reveal_with_fuel(dec, 3); assert(s.drop_last().drop_last() =~= Seq::<u8>::empty()); assert(digit(s[0]) && digit(s[1])); }
proof fn lemma_dec1(s: Seq<u8>) requires s.len() == 1, digits(s) ensures dec(s) == s[0] - 48, dec(s) <= 9
{ reveal_with_fuel(dec, 2); assert(digit(s[0])); }
proof fn lemma_dec4(s: Seq<u8>) requires s.len() == 4, digits(s) ensures dec(s) == (s[0] - 48) * 1000 + (s[1] - 48) * 100 + (s[2] - 48) * 10 + (s[3] - 48), dec(s) <= 9999
{
    reveal_with_fuel(dec, 5);
    let a = s.drop_last(); let b = a.drop_last(); let c = b.drop_last();
    assert(c.drop_last() =~= Seq::<u8>::empty());
    assert(digit(s[0]) && digit(s[1]) && digit(s[2]) && digit(s[3]));
}
proof fn lemma_two(s: Seq<u8>, i: int, v: int)
    requires 0 <= i, i + 2 <= s.len(), 0 <= v < 100, s[i] == 48 + v / 10, s[i + 1] == 48 + v % 10
    ensures num(s, i, i + 2, v)
{ let t = s.subrange(i, i + 2); assert(t[0] == s[i] && t[1] == s[i + 1]); assert(digits(t)); lemma_dec2(t); }
proof fn lemma_four(s: Seq<u8>, i: int, v: int)
    requires 0 <= i, i + 4 <= s.len(), 0 <= v < 10000, s[i] == 48 + v / 1000, s[i + 1] == 48 + v / 100 % 10, s[i + 2] == 48 + v / 10 % 10, s[i + 3] == 48 + v % 10
    ensures num(s, i, i + 4, v)
{ let t = s.subrange(i, i + 4); assert(t[0] == s[i] && t[1] == s[i + 1] && t[2] == s[i + 2] && t[3] == s[i + 3]); assert(digits(t)); lemma_dec4(t); }
pub broadcast proof fn lemma_dec_small(s: Seq<u8>)
    requires #[trigger] digits(s), s.len() == 1 || s.len() == 2 || s.len() == 4
    ensures dec(s) <= (if s.len() == 1 { 9int } else if s.len() == 2 { 99 } else { 9999 })
{ if s.len() == 1 { lemma_dec1(s) } else if s.len() == 2 { lemma_dec2(s) } else { lemma_dec4(s) } }

// TRUSTED: std's from_utf8 and integer parsing on ASCII digits (which may be none).
#[verifier::external_body]
pub fn all_digits(s: &[u8]) -> (r: bool) ensures r == (forall|i: int| 0 <= i < s@.len() ==> digit(#[trigger] s@[i])) { s.iter().all(u8::is_ascii_digit) }
#[verifier::external_body]
pub fn digits_value<T: Number>(s: &[u8]) -> (r: CrateResult<T>)
    requires forall|i: int| 0 <= i < s@.len() ==> digit(#[trigger] s@[i]),
    ensures r is Ok <==> s@.len() > 0 && dec(s@) <= T::max(), r matches Ok(v) ==> v.val() == dec(s@),
{ unimplemented!() }
//@ fn src/utils/date.rs parse_number
//@ ret r
//@ rename parse_number_body
ensures
    r is Ok <==> digits(s@) && dec(s@) <= T::max(),
    r matches Ok(v) ==> v.val() == dec(s@),
//@ rewrite "T: FromStr<Err = ParseIntError>" => "T: Number"
//@ rewrite "s.iter().all(u8::is_ascii_digit)" => "all_digits(s)"
//@ rewrite "from_utf8(s)?.parse()?" => "digits_value::<T>(s)?"
//@ end
//@ fn src/utils/date.rs parse_imf_fixdate
//@ ret r
//@ bytes
ensures
    r matches Ok(d) ==> imf(s@, d),
    r is Err ==> forall|d: HttpDate| !imf(s@, d),
//@ at start
broadcast use lemma_dec_small;
//@ end
//@ fn src/utils/date.rs parse_rfc850_date / week_day
//@ ret r
//@ rename week_day_fn
//@ rewrite "== name" => ", name)"
//@ rewrite "if &s[0..name.len()]" => "if bytes_eq(&s[0..name.len()]"
requires s.len() >= name.len(),
ensures
    r is Some <==> starts(s@, name@),
    r matches Some(t) ==> t.0 == week_day && t.1@ == s@.subrange(name@.len() as int, s@.len() as int),
//@ end
//@ fn src/utils/date.rs parse_rfc850_date
//@ ret r
//@ bytes
//@ cut-fns
//@ rewrite "week_day(s," => "week_day_fn(s,"
//@ closure 0 types="" ret="o: Option<(u8, &[u8])>"
requires s.len() >= 23,
ensures o is Some <==> starts(s@, day_prefix(2)), o matches Some(t) ==> t.0 == 2 && t.1@ == s@.subrange(day_prefix(2).len() as int, s@.len() as int),
//@ closure 1 types="" ret="o: Option<(u8, &[u8])>"
requires s.len() >= 23,
ensures o is Some <==> starts(s@, day_prefix(3)), o matches Some(t) ==> t.0 == 3 && t.1@ == s@.subrange(day_prefix(3).len() as int, s@.len() as int),
//@ closure 2 types="" ret="o: Option<(u8, &[u8])>"
requires s.len() >= 23,
ensures o is Some <==> starts(s@, day_prefix(4)), o matches Some(t) ==> t.0 == 4 && t.1@ == s@.subrange(day_prefix(4).len() as int, s@.len() as int),
//@ closure 3 types="" ret="o: Option<(u8, &[u8])>"
requires s.len() >= 23,
ensures o is Some <==> starts(s@, day_prefix(5)), o matches Some(t) ==> t.0 == 5 && t.1@ == s@.subrange(day_prefix(5).len() as int, s@.len() as int),
//@ closure 4 types="" ret="o: Option<(u8, &[u8])>"
requires s.len() >= 23,
ensures o is Some <==> starts(s@, day_prefix(6)), o matches Some(t) ==> t.0 == 6 && t.1@ == s@.subrange(day_prefix(6).len() as int, s@.len() as int),
//@ closure 5 types="" ret="o: Option<(u8, &[u8])>"
requires s.len() >= 23,
ensures o is Some <==> starts(s@, day_prefix(7)), o matches Some(t) ==> t.0 == 7 && t.1@ == s@.subrange(day_prefix(7).len() as int, s@.len() as int),
//@ spec
ensures
    r matches Ok(d) ==> rfc850(s@, d),
    r is Err ==> forall|d: HttpDate| !rfc850(s@, d),
//@ at start
broadcast use lemma_dec_small;
let ghost s0 = s@;
proof {
    assert(day_prefix(1) =~= seq![77u8, 111u8, 110u8, 100u8, 97u8, 121u8, 44u8, 32u8]);
    assert(day_prefix(2) =~= seq![84u8, 117u8, 101u8, 115u8, 100u8, 97u8, 121u8, 44u8, 32u8]);
    assert(day_prefix(3) =~= seq![87u8, 101u8, 100u8, 110u8, 101u8, 115u8, 100u8, 97u8, 121u8, 44u8, 32u8]);
    assert(day_prefix(4) =~= seq![84u8, 104u8, 117u8, 114u8, 115u8, 100u8, 97u8, 121u8, 44u8, 32u8]);
    assert(day_prefix(5) =~= seq![70u8, 114u8, 105u8, 100u8, 97u8, 121u8, 44u8, 32u8]);
    assert(day_prefix(6) =~= seq![83u8, 97u8, 116u8, 117u8, 114u8, 100u8, 97u8, 121u8, 44u8, 32u8]);
    assert(day_prefix(7) =~= seq![83u8, 117u8, 110u8, 100u8, 97u8, 121u8, 44u8, 32u8]);
    assert forall|d: int, e: int| 1 <= d <= 7 && 1 <= e <= 7 && starts(s@, #[trigger] day_prefix(d)) && starts(s@, #[trigger] day_prefix(e)) implies d == e by { lemma_prefixes(s@, d, e); }
}
//@ at stmt 3
proof {
    let n = s0.len() - s@.len();
    if s@.len() == 22 {
        assert(forall|i: int| 0 <= i < 22 ==> s@[i] == s0[n + i]);
        assert(s@[2] == s0[n + 2]); assert(s@[3] == s0[n + 3]); assert(s@[4] == s0[n + 4]); assert(s@[5] == s0[n + 5]); assert(s@[6] == s0[n + 6]); assert(s@[9] == s0[n + 9]); assert(s@[12] == s0[n + 12]); assert(s@[15] == s0[n + 15]); assert(s@[18] == s0[n + 18]); assert(s@[19] == s0[n + 19]); assert(s@[20] == s0[n + 20]); assert(s@[21] == s0[n + 21]); 
        assert(n == day_name(week_day as int).len() + 2);
        assert(s@.subrange(0, 2) =~= s0.subrange(n, n + 2));
        assert(s@.subrange(7, 9) =~= s0.subrange(n + 7, n + 9));
        assert(s@.subrange(10, 12) =~= s0.subrange(n + 10, n + 12));
        assert(s@.subrange(13, 15) =~= s0.subrange(n + 13, n + 15));
        assert(s@.subrange(16, 18) =~= s0.subrange(n + 16, n + 18));
    }
}
//@ end
//@ fn src/utils/date.rs parse_asctime
//@ ret r
//@ bytes
ensures
    r matches Ok(d) ==> asctime(s@, d),
    r is Err ==> forall|d: HttpDate| !asctime(s@, d),
//@ at start
broadcast use lemma_dec_small;
proof { if s@.len() == 24 { assert(s@.subrange(8, 10).subrange(1, 2) =~= s@.subrange(9, 10)); } }
//@ end
impl HttpDate {
//@ fn src/utils/date.rs <HttpDate as Display>::fmt
//@ bare
//@ ret r
//@ bytes
requires self.valid(),
ensures exists|o: Seq<u8>| #[trigger] imf(o, *self) && final(f).out@ == old(f).out@ + o,
//@ at tail
proof {
    let o = buf@;
    lemma_two(o, 5, self.day as int); lemma_two(o, 17, self.hour as int); lemma_two(o, 20, self.minute as int); lemma_two(o, 23, self.second as int);
    lemma_four(o, 12, self.year as int);
    assert(imf(o, *self));
    assert(buf@.subrange(0, 29) =~= buf@);
}
//@ end
}
// the date a text names, in any of the three forms
pub open spec fn named(s: Seq<u8>, d: HttpDate) -> bool { imf(s, d) || rfc850(s, d) || asctime(s, d) }
proof fn lemma_named(s: Seq<u8>, d: HttpDate, e: HttpDate)
    requires named(s, d), named(s, e),
    ensures d == e,
{
    if rfc850(s, d) && rfc850(s, e) { lemma_prefixes(s, d.week_day as int, e.week_day as int); }
    assert(d.second == e.second && d.minute == e.minute && d.hour == e.hour && d.day == e.day && d.month == e.month && d.year == e.year && d.week_day == e.week_day);
}
pub assume_specification<T, E, F, O: FnOnce(E) -> Result<T, F>> [Result::<T, E>::or_else] (r: Result<T, E>, f: O) -> (q: Result<T, F>)
    requires r matches Err(e) ==> f.requires((e,)),
    ensures match r { Ok(t) => q == Ok::<T, F>(t), Err(e) => f.ensures((e,), q) };
#[verifier::external_body]
pub fn str_bytes(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { s.as_bytes() }
#[verifier::external_body]
pub fn str_ascii(s: &str) -> (r: bool) ensures r == ascii_chars(s@) { s.is_ascii() }
impl HttpDate {
// discharged in unit date
#[verifier::external_body]
pub fn is_valid(self) -> (r: bool) ensures r == self.valid() { unimplemented!() }
//@ fn src/utils/date.rs <HttpDate as FromStr>::from_str
//@ bare
//@ ret r
ensures
    r matches Ok(d) ==> ascii_chars(s@) && named(utf8(trimmed(s@)), d) && d.valid(),
    r is Err ==> !(ascii_chars(s@) && exists|d: HttpDate| #[trigger] named(utf8(trimmed(s@)), d) && d.valid()),
//@ rewrite "Result<Self, Self::Err>" => "Result<Self, Error>"
//@ rewrite "s.is_ascii()" => "str_ascii(s)"
//@ rewrite "s.trim().as_bytes()" => "str_bytes(s.trim())"
//@ rewrite "|_|" => "|vx_e: Error|"
//@ closure 0 types="_" ret="q: CrateResult<HttpDate>"
ensures q matches Ok(d) ==> rfc850(x@, d), q is Err ==> forall|d: HttpDate| !rfc850(x@, d),
//@ closure 1 types="_" ret="q: CrateResult<HttpDate>"
ensures q matches Ok(d) ==> asctime(x@, d), q is Err ==> forall|d: HttpDate| !asctime(x@, d),
//@ at start
proof {
    let x = utf8(trimmed(s@));
    assert forall|d: HttpDate, e: HttpDate| #[trigger] named(x, d) && #[trigger] named(x, e) implies d == e by { lemma_named(x, d, e); }
}
//@ end
}
}
fn main() {}
