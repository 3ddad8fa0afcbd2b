pub open spec fn digit(n: int) -> char { ((n + 48) as u8) as char }
pub open spec fn dec_text(n: int) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec_text(n / 10).push(digit(n % 10)) } }
